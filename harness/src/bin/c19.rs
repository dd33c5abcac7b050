//! C19: fixed-point arithmetic rounds to nearest or refuses, never wraps.
//! Oracle: exact rational arithmetic in i128.
use demixer::fixed_point::types::*;
use demixer::fixed_point::*;
use mc::*;

macro_rules! fixed {
    ($name:ident, $raw:ty) => {
        #[derive(Debug, Clone, Copy)]
        struct $name<const F: u8>($raw);
        impl<const F: u8> FixedPoint for $name<F> {
            type Raw = $raw;
            fn raw(&self) -> $raw { self.0 }
            fn new_unchecked(raw: $raw) -> Self { $name(raw) }
            const FRACTIONAL_BITS: u8 = F;
        }
    };
}
fixed!(I32, i32);
fixed!(U32, u32);
fixed!(I64, i64);
fixed!(U64, u64);

/// num / den (den > 0) rounded to nearest, ties away from zero.
fn rdiv(num: i128, den: i128) -> i128 {
    let q = num.abs() / den;
    let r = num.abs() % den;
    let q = if 2 * r >= den { q + 1 } else { q };
    if num < 0 { -q } else { q }
}

/// value * 2^from rescaled to 2^to; None: not exactly/at all representable.
fn rescale(v: i128, from: i32, to: i32) -> i128 {
    if from > to { rdiv(v, 1i128 << (from - to)) } else { v << (to - from) }
}

/// Outcome of the code under test: a value or a refusal.
fn attempt<F: FnOnce() -> i128>(f: F) -> Option<i128> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// `exact`: mathematically rounded result; `lo..=hi`: what the result type can
/// hold. `slack`: half-unit saturation permitted at the numeric limits of the
/// wide intermediate type, `near`: true iff the operand is that close to them.
fn judge(what: &str, got: Option<i128>, exact: i128, lo: i128, hi: i128, near: bool, l: &mut Local) -> CaseResult {
    l.transitions += 1;
    match got {
        None => {
            l.count("refusals", 1);
            if exact >= lo && exact <= hi && !near {
                return Err(format!("{} refused although {} is representable", what, exact));
            }
        }
        Some(v) => {
            if exact < lo || exact > hi {
                // saturation within one unit of the limit is permitted when near
                if near && (v - exact).abs() <= 1 { return Ok(()); }
                return Err(format!("{} gives {} although {} is not representable", what, v, exact));
            }
            if v != exact && !(near && (v - exact).abs() <= 1) {
                return Err(format!("{} gives {} instead of {}", what, v, exact));
            }
        }
    }
    Ok(())
}

fn grid(bits: u32, signed: bool, dense: i128) -> Vec<i128> {
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    let mut v = vec![];
    for k in 0..bits {
        for base in [1i128 << k, 3i128 << k, 5i128 << k, (1i128 << k) + (1i128 << (k / 2))] {
            for d in -2..=2 { v.push(base + d); v.push(-(base + d)); }
        }
    }
    for d in 0..dense { v.push(d); v.push(-d); v.push(lo + d); v.push(hi - d); }
    let step = (hi - lo) / 97;
    for i in 0..=97 { v.push(lo + i * step); }
    v.retain(|&x| x >= lo && x <= hi);
    v.sort(); v.dedup();
    v
}

fn near_limit(v: i128, bits: u32, signed: bool, half: i128) -> bool {
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    v > hi - half || (signed && v < lo + half + 1)
}

macro_rules! scaled_down_stage {
    ($c:ident, $name:expr, $t:ty, $bits:expr, $signed:expr, $f:path, $all:expr, $maxshift:expr) => {{
        let vals: Vec<i128> = if $all { (<$t>::min_value() as i128..=<$t>::max_value() as i128).collect() } else { grid($bits, $signed, 40) };
        let n = vals.len() as u64;
        $c.stage($name, &format!("{} operands x shifts 1..={}", n, $maxshift), n, move |_, case, l| {
            let v = vals[case as usize];
            for shift in 1..=$maxshift as u8 {
                l.describe(|| format!("{} >> {}", v, shift));
                let exact = rdiv(v, 1i128 << shift);
                let near = near_limit(v, $bits, $signed, 1i128 << (shift - 1));
                let got = attempt(|| $f(v as $t, shift) as i128);
                judge(&format!("{}({}, {})", $name, v, shift), got, exact, <$t>::min_value() as i128, <$t>::max_value() as i128, near, l)?;
                l.outcome(mix(got.unwrap_or(-1) as u64, shift as u64));
            }
            l.states += 1; l.traces += 1;
            Ok(())
        });
    }};
}

macro_rules! div_stage {
    ($c:ident, $name:expr, $t:ty, $bits:expr, $signed:expr, $f:path, $all:expr) => {{
        let vals: Vec<i128> = grid($bits, $signed, 30);
        let divs: Vec<i128> = vals.iter().cloned().filter(|&x| x > 0).collect();
        let n = vals.len() as u64;
        $c.stage($name, &format!("{} operands x {} divisors", n, divs.len()), n, move |_, case, l| {
            let v = vals[case as usize];
            for &d in &divs {
                l.describe(|| format!("{} / {}", v, d));
                let exact = rdiv(v, d);
                let near = near_limit(v, $bits, $signed, d / 2 + 1);
                let got = attempt(|| $f(v as $t, d as $t) as i128);
                judge(&format!("{}({}, {})", $name, v, d), got, exact, <$t>::min_value() as i128, <$t>::max_value() as i128, near, l)?;
            }
            for bad in [0 as $t, (0 as $t).wrapping_sub(1)] {
                if bad as i128 <= 0 {
                    ensure!(attempt(|| $f(v as $t, bad) as i128).is_none(), "division by {} accepted", bad);
                }
            }
            l.states += 1; l.traces += 1;
            Ok(())
        });
    }};
}

macro_rules! addsub_stage {
    ($c:ident, $name:expr, $T:ty, $tr:ident, $t:ty, $bits:expr, $signed:expr, $lo:expr, $hi:expr) => {{
        let vals: Vec<i128> = grid($bits, $signed, 12).into_iter().filter(|&v| v >= $lo && v <= $hi).collect();
        let n = vals.len() as u64;
        $c.stage($name, &format!("addition and subtraction of all pairs of {} operands", n), n, move |_, case, l| {
            let a = vals[case as usize];
            let x = <$T>::new_unchecked(a as $t);
            for &b in &vals {
                l.describe(|| format!("{} and {}", a, b));
                let y = <$T>::new_unchecked(b as $t);
                let s = attempt(|| $tr::add(&x, &y).raw() as i128);
                judge(&format!("{} + {}", a, b), s, a + b, $lo, $hi, false, l)?;
                let s = attempt(|| $tr::sub(&x, &y).raw() as i128);
                judge(&format!("{} - {}", a, b), s, a - b, $lo, $hi, false, l)?;
            }
            l.states += 1; l.traces += 1;
            Ok(())
        });
    }};
}

macro_rules! neg_check {
    ($l:ident, $T:ty, $tr:ident, $t:ty, $bits:expr, $lo:expr, $hi:expr) => {{
        for v in grid($bits, true, 40) {
            if v < $lo || v > $hi { continue; }
            $l.describe(|| format!("-({})", v));
            let got = attempt(|| $tr::neg(&<$T>::new_unchecked(v as $t)).raw() as i128);
            judge(&format!("neg({})", v), got, -v, $lo, $hi, false, $l)?;
        }
    }};
}

macro_rules! convert {
    ($l:ident, $v:expr, $S:ident, $sf:expr, $st:ty, $sbits:expr, $signed:expr, $D:ident, $df:expr, $dt:ty, $f:ident, $wide:expr) => {{
        let exact = rescale($v, $sf, $df);
        let half = if $sf > $df { 1i128 << ($sf - $df - 1) } else { 0 };
        let near = $sf > $df && near_limit($v, $wide, $signed, half);
        let got = attempt(|| $S::<$sf>($v as $st).$f::<$D<$df>>().raw() as i128);
        judge(&format!("{}<{}>({}) to {}<{}>", stringify!($S), $sf, $v, stringify!($D), $df), got, exact,
              <$dt>::min_value() as i128, <$dt>::max_value() as i128, near, $l)?;
    }};
}

macro_rules! conversions {
    ($c:ident, $name:expr, $S:ident, $st:ty, $bits:expr, $signed:expr, $D:ident, $dt:ty, $f:ident, $wide:expr,
     [$($sf:expr => ($($df:expr),*)),*]) => {{
        let vals = grid($bits, $signed, 60);
        let n = vals.len() as u64;
        $c.stage($name, &format!("{} operands x format pairs {}", n, stringify!($($sf => ($($df),*)),*)), n, move |_, case, l| {
            let v = vals[case as usize];
            l.describe(|| format!("operand {}", v));
            $( $( convert!(l, v, $S, $sf, $st, $bits, $signed, $D, $df, $dt, $f, $wide); )* )*
            l.states += 1; l.traces += 1;
            Ok(())
        });
    }};
}

macro_rules! one_mul {
    ($l:ident, $a:expr, $b:expr, $S:ident, $st:ty, $fa:expr, $fb:expr, $D:ident, $dt:ty, $fr:expr, $f:path, $signed:expr) => {{
        let p = $a * $b;
        let exact = rescale(p, $fa + $fb, $fr);
        let half = if $fa + $fb > $fr { 1i128 << ($fa + $fb - $fr - 1) } else { 0 };
        let near = $fa + $fb > $fr && near_limit(p, 64, $signed, half);
        let got = attempt(|| { let r: $D<$fr> = $f(&$S::<$fa>($a as $st), &$S::<$fb>($b as $st)); r.raw() as i128 });
        judge(&format!("{}: {}/2^{} * {}/2^{} in 2^{}", stringify!($f), $a, $fa, $b, $fb, $fr), got, exact,
              <$dt>::min_value() as i128, <$dt>::max_value() as i128, near, $l)?;
    }};
}

macro_rules! mul_stage {
    ($c:ident, $name:expr, $S:ident, $st:ty, $signed:expr, $D:ident, $dt:ty, $f:path, [$(($fa:expr, $fb:expr, $fr:expr)),*]) => {{
        let vals = grid(32, $signed, 3);
        let n = vals.len() as u64;
        $c.stage($name, &format!("all pairs of {} operands x formats {}", n, stringify!($(($fa, $fb, $fr)),*)), n, move |_, case, l| {
            let a = vals[case as usize];
            for &b in &vals {
                l.describe(|| format!("{} * {}", a, b));
                $( one_mul!(l, a, b, $S, $st, $fa, $fb, $D, $dt, $fr, $f, $signed); )*
            }
            l.states += 1; l.traces += 1;
            Ok(())
        });
    }};
}

fn main() {
    let mut c = Check::new("C19", "model_checking");
    std::panic::set_hook(Box::new(|_| {}));
    scaled_down_stage!(c, "fix_i16::scaled_down", i16, 16, true, fix_i16::scaled_down, true, 14);
    scaled_down_stage!(c, "fix_u16::scaled_down", u16, 16, false, fix_u16::scaled_down, true, 15);
    scaled_down_stage!(c, "fix_i32::scaled_down", i32, 32, true, fix_i32::scaled_down, false, 30);
    scaled_down_stage!(c, "fix_u32::scaled_down", u32, 32, false, fix_u32::scaled_down, false, 31);
    scaled_down_stage!(c, "fix_i64::scaled_down", i64, 64, true, fix_i64::scaled_down, false, 62);
    scaled_down_stage!(c, "fix_u64::scaled_down", u64, 64, false, fix_u64::scaled_down, false, 63);
    div_stage!(c, "fix_i32::div", i32, 32, true, fix_i32::div, false);
    div_stage!(c, "fix_u32::div", u32, 32, false, fix_u32::div, false);
    div_stage!(c, "fix_i64::div", i64, 64, true, fix_i64::div, false);
    div_stage!(c, "fix_u64::div", u64, 64, false, fix_u64::div, false);
    let m = |b: u32| -(1i128 << (b - 1));
    let x = |b: u32| (1i128 << (b - 1)) - 1;
    addsub_stage!(c, "addsub_i32", NoFractI32, FixI32, i32, 32, true, m(32), x(32));
    addsub_stage!(c, "addsub_u32", NoFractU32, FixU32, u32, 32, false, 0, (1i128 << 32) - 1);
    addsub_stage!(c, "addsub_i64", NoFractI64, FixI64, i64, 64, true, m(64), x(64));
    addsub_stage!(c, "addsub_u64", NoFractU64, FixU64, u64, 64, false, 0, (1i128 << 64) - 1);
    addsub_stage!(c, "addsub_FractOnlyI32", FractOnlyI32, FixI32, i32, 32, true, 0, x(32));
    addsub_stage!(c, "addsub_FractOnlyU32", FractOnlyU32, FixU32, u32, 32, false, 0, x(32));
    addsub_stage!(c, "addsub_FractOnlyI64", FractOnlyI64, FixI64, i64, 64, true, 0, x(64));
    addsub_stage!(c, "addsub_FractOnlyU64", FractOnlyU64, FixU64, u64, 64, false, 0, x(64));
    addsub_stage!(c, "addsub_StretchedProbD", StretchedProbD, FixI32, i32, 32, true, -(12i128 << 21), 12i128 << 21);
    addsub_stage!(c, "addsub_StretchedProbQ", StretchedProbQ, FixI64, i64, 64, true, m(64), x(64));
    addsub_stage!(c, "addsub_Log2D", Log2D, FixI32, i32, 32, true, m(32), x(32));
    addsub_stage!(c, "addsub_MixerWeight", MixerWeight, FixI32, i32, 32, true, m(32), x(32));
    c.stage("neg", "negation of boundary grids of every signed type", 1, |_, _, l| {
        neg_check!(l, NoFractI32, FixI32, i32, 32, -(1i128 << 31), (1i128 << 31) - 1);
        neg_check!(l, NoFractI64, FixI64, i64, 64, -(1i128 << 63), (1i128 << 63) - 1);
        neg_check!(l, StretchedProbD, FixI32, i32, 32, -(12i128 << 21), 12i128 << 21);
        neg_check!(l, FractOnlyI32, FixI32, i32, 32, 0i128, (1i128 << 31) - 1);
        neg_check!(l, MixerWeight, FixI32, i32, 32, -(8i128 << 21), 8i128 << 21);
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.stage("ulp", "the smallest step of every type is one unit of its last place, and steps add up to it", 1, |_, _, l| {
        macro_rules! ulp { ($($t:ty: $tr:ident),*) => {$(
            l.states += 1; l.traces += 1;
            let r = <$t as $tr>::ulp().raw();
            ensure!(r == 1, "smallest step of {} is {} units", stringify!($t), r);
        )*} }
        ulp!(NoFractI32: FixI32, NoFractU32: FixU32, NoFractI64: FixI64, NoFractU64: FixU64, FractOnlyI32: FixI32, FractOnlyU32: FixU32,
            FractOnlyI64: FixI64, FractOnlyU64: FixU64, StretchedProbD: FixI32, StretchedProbQ: FixI64, Log2D: FixI32, Log2Q: FixI64,
            MixerWeight: FixI32);
        Ok(())
    });
    c.stage("constants", "the named constants and formats of every type: zero, half, one, limits, each the value its name says and usable in sums", 1, |_, _, l| {
        // total and fractional bits of each type
        macro_rules! formats { ($($t:ty: $tot:expr, $frac:expr);*) => {$(
            l.states += 1; l.traces += 1;
            let got = (<$t>::FRACTIONAL_BITS, <$t>::TOTAL_BITS, <$t>::INTEGRAL_BITS);
            ensure!(got == ($frac, $tot, $tot - $frac), "format of {} is {:?}", stringify!($t), got);
        )*} }
        formats!(NoFractI32: 32, 0; NoFractU32: 32, 0; NoFractI64: 64, 0; NoFractU64: 64, 0; FractOnlyI32: 32, 31; FractOnlyU32: 32, 31;
            FractOnlyI64: 64, 63; FractOnlyU64: 64, 63; StretchedProbD: 32, 21; StretchedProbQ: 64, 40; MixerWeight: 32, 21;
            Log2D: 32, 11; Log2Q: 64, 11);
        // the bit patterns of the constants; one of a signed fraction is the sign bit
        macro_rules! is { ($($e:expr => $raw:expr),* $(,)?) => {$(
            l.states += 1; l.traces += 1;
            let got = $e.raw() as i128;
            ensure!(got == $raw, "{} is {} units, not {}", stringify!($e), got, $raw);
        )*} }
        is!(NoFractI32::ZERO => 0, NoFractU32::ZERO => 0, NoFractI64::ZERO => 0, NoFractU64::ZERO => 0,
            FractOnlyI32::ZERO => 0, FractOnlyU32::ZERO => 0, FractOnlyI64::ZERO => 0, FractOnlyU64::ZERO => 0,
            StretchedProbD::ZERO => 0, StretchedProbQ::ZERO => 0, MixerWeight::ZERO => 0,
            NoFractI32::ONE => 1, NoFractU32::ONE => 1, NoFractI64::ONE => 1, NoFractU64::ONE => 1, MixerWeight::ONE => 1i128 << 21,
            FractOnlyI32::HALF => 1i128 << 30, FractOnlyU32::HALF => 1i128 << 30, FractOnlyI64::HALF => 1i128 << 62, FractOnlyU64::HALF => 1i128 << 62,
            FractOnlyI32::ONE_UNSAFE => -(1i128 << 31), FractOnlyU32::ONE_UNSAFE => 1i128 << 31,
            FractOnlyI64::ONE_UNSAFE => -(1i128 << 63), FractOnlyU64::ONE_UNSAFE => 1i128 << 63,
            StretchedProbD::MAX => 12i128 << 21, StretchedProbD::MIN => -(12i128 << 21),
            StretchedProbQ::MAX => 12i128 << 40, StretchedProbQ::MIN => -(12i128 << 40),
            MixerWeight::MAX => 8i128 << 21, MixerWeight::MIN => -(8i128 << 21));
        ensure!(StretchedProbD::ABSOLUTE_LIMIT == 12 && StretchedProbQ::ABSOLUTE_LIMIT == 12 && MixerWeight::ABSOLUTE_LIMIT == 8, "limits of the domains");
        Ok(())
    });
    c.stage("flip", "one minus fraction for every boundary fraction of the four fraction types (zero refuses: one is not a fraction)", 1, |_, _, l| {
        for v in grid(32, false, 200) {
            if v >= 1 << 31 { continue; }
            l.describe(|| format!("flip {}", v));
            judge(&format!("flip u32 {}", v), attempt(|| FractOnlyU32::new(v as u32, 31).flip().raw() as i128), (1i128 << 31) - v, 0, (1i128 << 31) - 1, false, l)?;
        }
        for v in grid(64, false, 200) {
            if v >= 1 << 63 { continue; }
            judge(&format!("flip u64 {}", v), attempt(|| FractOnlyU64::new(v as u64, 63).flip().raw() as i128), (1i128 << 63) - v, 0, (1i128 << 63) - 1, false, l)?;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.stage("sign_changes", "conversions between signed and unsigned types keep the value or refuse", 1, |_, _, l| {
        for v in grid(32, true, 200) {
            l.describe(|| format!("{}", v));
            judge("NoFractI32::to_unsigned", attempt(|| NoFractI32::new(v as i32, 0).to_unsigned().raw() as i128), v, 0, i32::max_value() as i128, false, l)?;
            if v >= 0 {
                judge("FractOnlyI32::to_unsigned", attempt(|| FractOnlyI32::new(v as i32, 31).to_unsigned().raw() as i128), v, 0, i32::max_value() as i128, false, l)?;
                judge("FractOnlyU32::to_signed", attempt(|| FractOnlyU32::new(v as u32, 31).to_signed().raw() as i128), v, 0, i32::max_value() as i128, false, l)?;
            }
        }
        for v in grid(64, true, 200) {
            judge("NoFractI64::to_unsigned", attempt(|| NoFractI64::new(v as i64, 0).to_unsigned().raw() as i128), v, 0, i64::max_value() as i128, false, l)?;
            if v >= 0 {
                judge("FractOnlyI64::to_unsigned", attempt(|| FractOnlyI64::new(v as i64, 63).to_unsigned().raw() as i128), v, 0, i64::max_value() as i128, false, l)?;
                judge("FractOnlyU64::to_signed", attempt(|| FractOnlyU64::new(v as u64, 63).to_signed().raw() as i128), v, 0, i64::max_value() as i128, false, l)?;
            }
        }
        for v in grid(32, false, 200) {
            judge("NoFractU32::to_signed", attempt(|| NoFractU32::new(v as u32, 0).to_signed().raw() as i128), v, 0, i32::max_value() as i128, false, l)?;
        }
        for v in grid(64, false, 200) {
            judge("NoFractU64::to_signed", attempt(|| NoFractU64::new(v as u64, 0).to_signed().raw() as i128), v, 0, i64::max_value() as i128, false, l)?;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.stage("bounds", "constructors refuse values outside the declared bounds and wrong formats; clamping stops exactly at the limits", 1, |_, _, l| {
        let lim = 12i64 << 21;
        for d in -3..=3i64 {
            for s in [lim + d, -lim + d] {
                let ok = s.abs() <= lim;
                ensure!(refuses(|| { StretchedProbD::new(s as i32, 21); }) != ok, "StretchedProbD {}", s);
            }
            let w = (8i64 << 21) + d;
            ensure!(MixerWeight::new(w as i32, 21).clamped().raw() as i64 == w.min(8 << 21), "clamp {}", w);
            ensure!(MixerWeight::new(-w as i32, 21).clamped().raw() as i64 == (-w).max(-(8 << 21)), "clamp {}", -w);
            let q = (12i64 << 40) + d;
            ensure!(StretchedProbQ::new(q, 40).clamped().raw() == q.min(12 << 40), "clamp {}", q);
            ensure!(StretchedProbQ::new(-q, 40).clamped().raw() == (-q).max(-(12 << 40)), "clamp {}", -q);
        }
        ensure!(refuses(|| { FractOnlyU32::new(1 << 31, 31); }), "one as a fraction");
        ensure!(!refuses(|| { FractOnlyU32::new((1 << 31) - 1, 31); }), "largest fraction refused");
        ensure!(refuses(|| { FractOnlyI32::new(-1, 31); }), "negative fraction");
        ensure!(refuses(|| { FractOnlyU64::new(1 << 63, 63); }), "one as a fraction");
        ensure!(refuses(|| { FractOnlyI64::new(-1, 63); }), "negative fraction");
        ensure!(refuses(|| { FractOnlyU32::new(1, 30); }), "wrong format accepted");
        ensure!(refuses(|| { StretchedProbD::new(1, 20); }), "wrong format accepted");
        ensure!(refuses(|| { NoFractI32::new(1, 1); }), "wrong format accepted");
        l.states += 1; l.traces += 1;
        Ok(())
    });
    conversions!(c, "i32_to_i32", I32, i32, 32, true, I32, i32, to_fix_i32, 32, [31 => (31, 30, 25, 21, 11, 1), 25 => (31, 25, 24, 11, 0), 21 => (31, 22, 21, 20, 11, 0), 11 => (31, 23, 11, 0), 0 => (30, 21, 1, 0), 30 => (29, 0)]);
    conversions!(c, "u32_to_u32", U32, u32, 32, false, U32, u32, to_fix_u32, 32, [31 => (31, 30, 23, 22, 16, 1, 0), 23 => (31, 24, 23, 22, 0), 22 => (31, 23, 1), 11 => (31, 23, 11, 0), 0 => (31, 21, 1, 0)]);
    conversions!(c, "i32_to_i64", I32, i32, 32, true, I64, i64, to_fix_i64, 64, [31 => (63, 40, 31, 30, 11, 0), 21 => (40, 52, 53, 60, 21, 20, 0), 0 => (31, 32, 33, 62, 0)]);
    conversions!(c, "u32_to_u64", U32, u32, 32, false, U64, u64, to_fix_u64, 64, [31 => (63, 40, 31, 30, 11, 0), 23 => (55, 56, 60, 23, 22, 0), 0 => (32, 33, 63, 0)]);
    conversions!(c, "i64_to_i32", I64, i64, 64, true, I32, i32, to_fix_i32, 64, [63 => (31, 30, 11, 1), 62 => (0), 40 => (21, 31, 30, 9, 8), 31 => (31, 0, 1), 21 => (31, 21), 0 => (31, 1, 0)]);
    conversions!(c, "u64_to_u32", U64, u64, 64, false, U32, u32, to_fix_u32, 64, [63 => (31, 30, 11, 0), 40 => (21, 31, 9, 8, 7), 31 => (31, 0), 21 => (31), 0 => (31, 1, 0)]);
    conversions!(c, "i64_to_i64", I64, i64, 64, true, I64, i64, to_fix_i64, 64, [63 => (63, 62, 40, 1), 40 => (63, 41, 40, 39, 0), 0 => (63, 62, 40, 1, 0)]);
    conversions!(c, "u64_to_u64", U64, u64, 64, false, U64, u64, to_fix_u64, 64, [63 => (63, 62, 40, 0), 40 => (63, 41, 40, 39, 0), 0 => (63, 40, 1, 0)]);
    mul_stage!(c, "fix_i32::mul", I32, i32, true, I32, i32, fix_i32::mul, [(31, 31, 31), (21, 31, 21), (25, 31, 21), (21, 21, 21), (0, 0, 0), (0, 0, 3), (11, 0, 31), (31, 31, 0)]);
    mul_stage!(c, "fix_u32::mul", U32, u32, false, U32, u32, fix_u32::mul, [(31, 31, 31), (31, 0, 31), (23, 31, 23), (0, 0, 0), (0, 0, 3), (11, 0, 31), (31, 31, 0)]);
    mul_stage!(c, "fix_i32::mul_wide", I32, i32, true, I64, i64, fix_i32::mul_wide, [(21, 21, 40), (21, 21, 42), (31, 31, 62), (31, 31, 63), (31, 31, 31), (0, 0, 1), (0, 0, 20)]);
    mul_stage!(c, "fix_u32::mul_wide", U32, u32, false, U64, u64, fix_u32::mul_wide, [(21, 21, 40), (31, 31, 62), (31, 31, 63), (31, 31, 31), (0, 0, 1), (0, 0, 20)]);
    // A product that keeps the format of a fraction type stays in it.
    let fr: Vec<i128> = grid(32, false, 40).into_iter().filter(|&v| v < 1 << 31).collect();
    let n = fr.len() as u64;
    c.stage("fraction_products", "all pairs of boundary fractions: product rounded to nearest, refused only if it rounds to one", n, move |_, case, l| {
        let a = fr[case as usize];
        for &b in &fr {
            l.describe(|| format!("{} * {}", a, b));
            let got = attempt(|| { let r: FractOnlyU32 = fix_u32::mul(&FractOnlyU32::new(a as u32, 31), &FractOnlyU32::new(b as u32, 31)); r.raw() as i128 });
            judge(&format!("{} * {}", a, b), got, rdiv(a * b, 1 << 31), 0, (1 << 31) - 1, false, l)?;
            let got = attempt(|| { let r: FractOnlyI32 = fix_i32::mul(&FractOnlyI32::new(a as i32, 31), &FractOnlyI32::new(b as i32, 31)); r.raw() as i128 });
            judge(&format!("{} * {}", a, b), got, rdiv(a * b, 1 << 31), 0, (1 << 31) - 1, false, l)?;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.stage("divide_types", "division methods of the crate's types agree with the exact quotient", 1, |_, _, l| {
        for v in grid(32, true, 20) {
            for d in [1i128, 2, 3, 7, 1000, 1 << 20, (1 << 31) - 1] {
                l.describe(|| format!("{} / {}", v, d));
                let near = near_limit(v, 32, true, d / 2 + 1);
                judge("MixerWeight::div", attempt(|| FixI32::div(&MixerWeight::new_unchecked(v as i32), d as i32).raw() as i128), rdiv(v, d), -(1 << 31), (1 << 31) - 1, near, l)?;
                if v.abs() <= 12 << 21 {
                    judge("StretchedProbD::div", attempt(|| FixI32::div(&StretchedProbD::new(v as i32, 21), d as i32).raw() as i128), rdiv(v, d), -(12 << 21), 12 << 21, near, l)?;
                }
                let w = v << 9;
                judge("StretchedProbQ::div", attempt(|| FixI64::div(&StretchedProbQ::new(w as i64, 40), d as i64).raw() as i128), rdiv(w, d), -(1 << 63), (1 << 63) - 1, false, l)?;
                if v >= 0 {
                    let u = v << 9;
                    judge("NoFractU64::div", attempt(|| FixU64::div(&NoFractU64::new(u as u64, 0), d as u64).raw() as i128), rdiv(u, d), 0, (1 << 64) - 1, false, l)?;
                }
            }
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.stage("trunc", "integer parts are the floor of the value", 1, |_, _, l| {
        for v in grid(32, true, 40) {
            ensure!(FixI32::trunc(&StretchedProbD::new_unchecked(v as i32)) as i128 == v >> 21, "trunc {}", v);
            ensure!(FixI32::trunc(&Log2D::new_unchecked(v as i32)) as i128 == v >> 11, "trunc {}", v);
            l.transitions += 2;
        }
        for v in grid(32, false, 40) {
            ensure!(FixU32::trunc(&FractOnlyU32::new_unchecked(v as u32)) as i128 == v >> 31, "trunc {}", v);
            l.transitions += 1;
        }
        for v in grid(64, true, 40) {
            ensure!(FixI64::trunc(&StretchedProbQ::new_unchecked(v as i64)) as i128 == v >> 40, "trunc {}", v);
            l.transitions += 1;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.assume("refusal means a panic; release builds of the crate keep its own checks (DO_CHECKS)");
    c.finish()
}
