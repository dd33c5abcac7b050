//! C27: the pseudo-random generator against the recurrence it is defined by.
use demixer::random::MersenneTwister;
use mc::*;

/// The 64-bit Mersenne Twister as an unbounded recurrence
/// x[n+312] = x[n+156] ^ (upper 33 of x[n] | lower 31 of x[n+1]) A
/// over a plain list, without a circular buffer or block regeneration.
struct Reference { x: Vec<u64>, n: usize }

const N: usize = 312;
const M: usize = 156;
const W: u32 = 64;
const R: u32 = 31;

impl Reference {
    fn scalar(seed: u64) -> Reference {
        let mut x = vec![seed];
        for i in 1..N as u64 {
            let p = *x.last().unwrap();
            x.push((p ^ p >> (W - 2)).wrapping_mul(6364136223846793005).wrapping_add(i));
        }
        Reference { x, n: 0 }
    }

    /// init_by_array64 of the published code.
    fn vector(key: &[u64]) -> Reference {
        let mut x = Reference::scalar(19650218).x;
        let prev = |x: &Vec<u64>, i: usize| { let p = x[i - 1]; p ^ p >> 62 };
        let mut i = 1;
        let step = |x: &mut Vec<u64>, i: &mut usize| { *i += 1; if *i == N { x[0] = x[N - 1]; *i = 1; } };
        for k in 0..N.max(key.len()) {
            let j = k % key.len();
            x[i] = (x[i] ^ prev(&x, i).wrapping_mul(3935559000370003845)).wrapping_add(key[j]).wrapping_add(j as u64);
            step(&mut x, &mut i);
        }
        for _ in 1..N {
            x[i] = (x[i] ^ prev(&x, i).wrapping_mul(2862933555777941757)).wrapping_sub(i as u64);
            step(&mut x, &mut i);
        }
        x[0] = 1 << 63;
        Reference { x, n: 0 }
    }

    fn next(&mut self) -> u64 {
        let n = self.n;
        self.n += 1;
        let low = (1u64 << R) - 1;
        let y = self.x[n] & !low | self.x[n + 1] & low;
        let z = self.x[n + M] ^ y >> 1 ^ if y & 1 == 1 { 0xB5026F5AA96619E9 } else { 0 };
        self.x.push(z);
        let mut t = z;
        t ^= t >> 29 & 0x5555555555555555;
        t ^= t << 17 & 0x71D67FFFEDA60000;
        t ^= t << 37 & 0xFFF7EEE000000000;
        t ^ t >> 43
    }
}

fn follow(mut g: MersenneTwister, mut r: Reference, len: usize, l: &mut Local) -> CaseResult {
    for i in 0..len {
        let (got, want) = (g.next_int64(), r.next());
        ensure!(got == want, "number {} is {} instead of {}", i, got, want);
        l.outcome(want);
    }
    l.states += len as u64; l.transitions += len as u64; l.traces += 1;
    Ok(())
}

/// Draws by `kinds` (repeated), comparing each with its definition.
fn derived(mut g: MersenneTwister, mut r: Reference, kinds: &[u64], len: usize, l: &mut Local) -> CaseResult {
    for i in 0..len {
        let w = r.next();
        let (what, ok) = match kinds[i % kinds.len()] {
            0 => ("64-bit number", g.next_int64() == w),
            1 => { let v = g.next_int63(); ("63-bit number", v >= 0 && v as u64 == w / 2) }
            k => {
                let v = match k { 2 => g.next_real1(), 3 => g.next_real2(), _ => g.next_real3() };
                let range = v >= 0.0 && v <= 1.0 && (k == 2 || v < 1.0) && (k != 4 || v > 0.0);
                // the reals divide [0,1] by the 53 (52) most significant bits
                let exact = match k {
                    2 => (w >> 11) as f64 / ((1u64 << 53) - 1) as f64,
                    3 => (w >> 11) as f64 / (1u64 << 53) as f64,
                    _ => ((w >> 12) as f64 + 0.5) / (1u64 << 52) as f64,
                };
                ("real number", range && (v - exact).abs() <= 2e-16)
            }
        };
        ensure!(ok, "draw {} ({} of kind {}) does not follow from {:#x}", i, what, kinds[i % kinds.len()], w);
    }
    l.states += len as u64; l.transitions += len as u64; l.traces += 1;
    Ok(())
}

/// Undoes the output transformation.
fn untemper(out: u64) -> u64 {
    // every step is an involution on the bits fixed so far
    let mut t = out ^ out >> 43;
    let u = t; for _ in 0..2 { t = u ^ t << 37 & 0xFFF7EEE000000000; }
    let u = t; for _ in 0..4 { t = u ^ t << 17 & 0x71D67FFFEDA60000; }
    let u = t; for _ in 0..3 { t = u ^ t >> 29 & 0x5555555555555555; }
    t
}

/// A key of 312 words after which the generator yields `outs` (at most 155).
fn key_for(outs: &[u64]) -> Vec<u64> {
    let prev = |p: u64| p ^ p >> 62;
    // the wanted state: words 1..156 are zero, so the first outputs are the
    // words from 156 on, except for the top bit of word 0 in the first one
    let mut s = vec![0u64; N];
    for (i, &o) in outs.iter().enumerate() { s[M + i] = untemper(o); }
    s[M] ^= 1 << 62;
    // before the second pass, which visits 2..=311 and then 1
    let mut t = vec![0u64; N];
    t[1] = s[1].wrapping_add(1) ^ prev(s[N - 1]).wrapping_mul(2862933555777941757);
    for i in 2..N {
        let p = if i == 2 { t[1] } else { s[i - 1] };
        t[i] = s[i].wrapping_add(i as u64) ^ prev(p).wrapping_mul(2862933555777941757);
    }
    // the first pass visits 1..=311 with words 0..=310 of the key, then 1
    // again with word 311; word 0 of the key is zero
    let x = Reference::scalar(19650218).x;
    let c = 3935559000370003845u64;
    let mut key = vec![0u64; N];
    let first = x[1] ^ prev(x[0]).wrapping_mul(c);
    for k in 1..N - 1 {
        let p = if k == 1 { first } else { t[k] };
        key[k] = t[k + 1].wrapping_sub(k as u64).wrapping_sub(x[k + 1] ^ prev(p).wrapping_mul(c));
    }
    key[N - 1] = t[1].wrapping_sub((N - 1) as u64).wrapping_sub(first ^ prev(t[N - 1]).wrapping_mul(c));
    key
}

fn seeds() -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, u64::max_value(), 5489, 19650218, 0x12345];
    for b in 0..64 { for d in [-1i64, 0, 1] { v.push((1u64 << b).wrapping_add(d as u64)); } v.push(!(1u64 << b)); }
    v.sort(); v.dedup();
    v
}

fn main() {
    let mut c = Check::new("C27", "model_checking");
    let sd = seeds();
    let sd = &sd;
    let len = c.pick(4 * N + 5, 40 * N + 5);
    c.stage("scalar_seeds", &format!("{} boundary seeds and 0..1000, {} numbers each", sd.len(), len), sd.len() as u64 + 1000, move |_, case, l| {
        let s = if case < 1000 { case } else { sd[case as usize - 1000] };
        l.describe(|| format!("seed {:#x}", s));
        follow(MersenneTwister::new_by_scalar_seed(s), Reference::scalar(s), len, l)
    });
    c.stage("default", "the default generator is seeded with 5489; a long run", 1, move |_, _, l| {
        l.describe(|| "default".into());
        follow(MersenneTwister::default(), Reference::scalar(5489), 1_000_000, l)
    });
    let klen = c.pick(700u64, 1500);
    c.stage("key_lengths", &format!("vector seeds of every length 1..={} with three fillings", klen), klen * 3, move |_, case, l| {
        let (n, f) = (case / 3 + 1, case % 3);
        let key: Vec<u64> = (0..n).map(|i| match f { 0 => 0, 1 => u64::max_value(), _ => i.wrapping_mul(0x9E3779B97F4A7C15) ^ i << 40 }).collect();
        l.describe(|| format!("{} words, filling {}", n, f));
        follow(MersenneTwister::new_by_vector_seed(&key), Reference::vector(&key), 2 * N + 5, l)
    });
    let words = c.pick(4u32, 6);
    c.stage("short_keys", &format!("all vector seeds of 1..={} words over 5 boundary words", words), words_up_to(5, words as usize) - 1, move |_, case, l| {
        let key: Vec<u64> = word(case + 1, 5).iter().map(|&d| [0u64, 1, 0x12345, 1 << 63, u64::max_value()][d as usize]).collect();
        l.describe(|| format!("{:x?}", key));
        follow(MersenneTwister::new_by_vector_seed(&key), Reference::vector(&key), N + 5, l)
    });
    let pat = c.pick(5usize, 7);
    c.stage("derived_outputs", &format!("every cyclic pattern of 1..={} draws over the five output functions, across state regenerations", pat), words_up_to(5, pat) - 1, move |_, case, l| {
        let kinds: Vec<u64> = word(case + 1, 5).iter().map(|&d| d as u64).collect();
        l.describe(|| format!("pattern {:?}", kinds));
        derived(MersenneTwister::new_by_scalar_seed(case), Reference::scalar(case), &kinds, 2 * N + 9, l)
    });
    // keys are computed so that the generator meets the ends of its ranges
    let ends: Vec<u64> = {
        let mut v = vec![];
        for b in 0..64 { for d in [0i64, -1, 1, -2] { v.push((1u64 << b).wrapping_add(d as u64)); v.push(!((1u64 << b).wrapping_add(d as u64))); } }
        v.sort(); v.dedup();
        v
    };
    let ends = &ends;
    let groups = (ends.len() as u64 + M as u64 - 2) / (M as u64 - 1);
    c.stage("chosen_outputs", &format!("generators seeded to yield {} boundary outputs, through each of the five output functions", ends.len()), groups * 5, move |_, case, l| {
        let (g, kind) = (case / 5, case % 5);
        let outs: Vec<u64> = ends.iter().skip(g as usize * (M - 1)).take(M - 1).cloned().collect();
        let key = key_for(&outs);
        l.describe(|| format!("group {} kind {}", g, kind));
        let mut r = Reference::vector(&key);
        for (i, &o) in outs.iter().enumerate() {
            let v = r.next();
            if v != o { return Err(format!("internal: chosen output {} is {:#x} instead of {:#x}", i, v, o)); }
            l.outcome(v);
        }
        derived(MersenneTwister::new_by_vector_seed(&key), Reference::vector(&key), &[kind], 2 * N, l)
    });
    let run = c.pick(2_000_000usize, 60_000_000);
    c.stage("real_ranges", &format!("{} draws of each real kind for 8 seeds", run), 24, move |_, case, l| {
        let kind = case % 3 + 2;
        l.describe(|| format!("kind {} seed {}", kind, case / 3));
        let mut g = MersenneTwister::new_by_scalar_seed(case / 3);
        let (mut lo, mut hi) = (1.0f64, 0.0f64);
        for _ in 0..run {
            let v = match kind { 2 => g.next_real1(), 3 => g.next_real2(), _ => g.next_real3() };
            lo = lo.min(v); hi = hi.max(v);
        }
        ensure!(lo >= 0.0 && hi <= 1.0 && (kind == 2 || hi < 1.0) && (kind < 4 || lo > 0.0), "range {}..{}", lo, hi);
        l.states += run as u64; l.transitions += run as u64;
        Ok(())
    });
    c.finish()
}
