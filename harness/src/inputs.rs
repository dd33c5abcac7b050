//! Input families that need nothing of the code under test.
pub const ALPHABETS: [[u8; 2]; 6] = [[0x00, 0x80], [0x00, 0x01], [0x00, 0xff], [0x0f, 0x1f], [0xfe, 0xff], [0x5a, 0xa5]];

/// Long inputs in which counters saturate before the window slides on.
pub fn saturating(case: u64) -> Vec<u8> {
    let mut v = vec![];
    let rep = |v: &mut Vec<u8>, s: &[u8], n: usize| for i in 0..n { v.push(s[i % s.len()]); };
    let n = [997, 998, 999, 1000, 1001, 1002, 1003, 1010][(case % 8) as usize];
    match case / 8 {
        0 => { rep(&mut v, &[0], n); v.push(0x80); rep(&mut v, &[0], 6); }
        1 => { rep(&mut v, &[0xff], n); v.extend(&[0xfe, 0xff, 0xff, 0x7f]); rep(&mut v, &[0xff], 5); }
        2 => { v.push(1); rep(&mut v, &[0], n); v.extend(&[1, 0, 0, 1]); }
        3 => { rep(&mut v, &[0, 0x80], 2 * n); v.extend(&[0x80, 0x80, 0, 0, 0x80]); }
        4 => { v.extend(&[0x80, 0x80]); rep(&mut v, &[0], n); v.extend(&[0x80, 0, 0x40, 0, 0x80]); }
        5 => { rep(&mut v, &[7, 7, 6], 3 * n / 2); v.extend(&[6, 6, 7]); }
        6 => { v.push(0x40); rep(&mut v, &[0], n / 2); v.push(0x40); rep(&mut v, &[0], n); v.push(0x40); }
        _ => { rep(&mut v, &[3, 2, 1, 0], n); v.extend(&[0, 1, 2, 3]); rep(&mut v, &[3, 2], 10); }
    }
    v
}
pub const SATURATING: u64 = 64;

/// de Bruijn sequence: every word of length `n` over `k` symbols occurs.
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 { out.extend(&a[1..=p]); }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k { a[t] = j; db(t + 1, t, k, n, a, out); }
        }
    }
    let mut a = vec![0; k * n + 1];
    let mut out = vec![];
    db(1, 1, k, n, &mut a, &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

/// Structured inputs: (name, bytes).
pub fn structured(thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    v.push(("empty".into(), vec![]));
    for a in [[0u8, 0x80], [0, 1], [0x61, 0x62], [0, 0xff]] {
        v.push((format!("de Bruijn order 10 over {:02x?}", a), de_bruijn(2, 10).iter().map(|&d| a[d]).collect()));
        // Fibonacci word, Thue-Morse word, period doubling word
        let (mut x, mut y) = (vec![a[0]], vec![a[0], a[1]]);
        while y.len() < 900 { let z = [y.clone(), x].concat(); x = y; y = z; }
        v.push((format!("Fibonacci word over {:02x?}", a), y));
        v.push((format!("Thue-Morse word over {:02x?}", a), (0..1024u32).map(|i| a[(i.count_ones() & 1) as usize]).collect()));
        v.push((format!("period doubling word over {:02x?}", a), (1..1024u32).map(|i| a[(i.trailing_zeros() & 1) as usize]).collect()));
    }
    v.push(("de Bruijn order 3 over 8 bytes".into(), de_bruijn(8, 3).iter().map(|&d| (d * 37) as u8).collect()));
    v.push(("counter".into(), (0..1024u32).map(|i| i as u8).collect()));
    v.push(("16 bit counter".into(), (0..600u32).flat_map(|i| vec![(i >> 8) as u8, i as u8]).collect()));
    v.push(("multiplicative noise".into(), (0..3000u32).map(|i| (i.wrapping_mul(i).wrapping_mul(2654435761) >> 24) as u8).collect()));
    let mut s = 0xACE1u32;
    v.push(("shift register noise".into(), (0..4000).map(|_| { for _ in 0..8 { s = s >> 1 ^ (if s & 1 == 1 { 0xB400 } else { 0 }); } s as u8 }).collect()));
    let text = b"It is a truth universally acknowledged, that a single man in possession of a good fortune, must be in want of a wife. ";
    v.push(("text four times".into(), text.iter().cycle().take(text.len() * 4).cloned().collect()));
    let mut t: Vec<u8> = text.to_vec();
    t.extend(text.iter().rev()); t.extend(text.iter().map(|b| b.to_ascii_uppercase())); t.extend(text);
    v.push(("text, reversed, shouted, again".into(), t));
    for n in [15usize, 16, 17, 21, 22, 40] {
        let mut r: Vec<u8> = vec![b'x'; n]; r.push(b'y');
        let l = r.len();
        v.push((format!("x^{} y repeated", n), r.iter().cycle().take(l * 12).cloned().collect()));
    }
    // distances beyond 100, 1000, 10000 (distance classes of the chain)
    for gap in [99usize, 100, 101, 999, 1000, 1001] {
        let mut r: Vec<u8> = b"needle".to_vec();
        r.extend((0..gap).map(|i| (i % 7) as u8));
        r.extend(b"needle"); r.extend((0..40).map(|i| (i % 5) as u8)); r.extend(b"needlf");
        v.push((format!("needle after {}", gap), r));
    }
    let mut r: Vec<u8> = b"needle".to_vec();
    r.extend((0..10_010).map(|i| (i % 3) as u8));
    r.extend(b"needle needle");
    v.push(("needle after 10010".into(), r));
    for b in [0u8, 0xff, 0x55, 0x80, 1] { v.push((format!("{:02x} x 1300", b), vec![b; 1300])); }
    for k in 0..SATURATING { if thorough || k % 8 == 3 || k % 8 == 4 { v.push((format!("saturating {}", k), saturating(k))); } }
    if thorough {
        v.push(("de Bruijn order 2 over all bytes".into(), de_bruijn(256, 2).iter().map(|&d| d as u8).collect()));
        v.push(("de Bruijn order 16 over 00 80".into(), de_bruijn(2, 16).iter().map(|&d| d as u8 * 0x80).collect()));
        v.push(("de Bruijn order 4 over 16 bytes".into(), de_bruijn(16, 4).iter().map(|&d| d as u8 * 17).collect()));
        v.push(("ff x 200000".into(), vec![0xff; 200_000]));
    }
    v
}
