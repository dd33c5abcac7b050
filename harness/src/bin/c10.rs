//! C10: the circular input window behaves like a queue of bytes.
use demixer::bit::Bit;
use demixer::history::window::{InputWindow, WindowIndex};
use mc::*;
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Append(u8), Remove, Write(u8), SetBit(usize, bool) }

struct Model { q: VecDeque<(usize, u8)>, removed: Vec<usize>, cap: usize, next: usize }

impl Model {
    fn new(cap: usize, shift: usize) -> Model {
        Model { q: VecDeque::new(), removed: vec![], cap, next: shift }
    }
    fn allowed(&self, op: Op) -> bool {
        match op {
            Op::Append(_) => self.q.len() < self.cap,
            _ => !self.q.is_empty(),
        }
    }
    fn apply(&mut self, op: Op) {
        match op {
            Op::Append(b) => {
                self.removed.retain(|&p| p != self.next);
                self.q.push_back((self.next, b));
                self.next = (self.next + 1) % self.cap;
            }
            Op::Remove => { let (p, _) = self.q.pop_front().unwrap(); self.removed.push(p); }
            Op::Write(b) => self.q.back_mut().unwrap().1 = b,
            Op::SetBit(i, v) => {
                let c = &mut self.q.back_mut().unwrap().1;
                *c = (*c & !(1 << i)) | ((v as u8) << i);
            }
        }
    }
}

fn apply(w: &mut InputWindow, op: Op) {
    match op {
        Op::Append(b) => { w.advance_cursor(); if b != 0 { w.set_byte_at_cursor(b); } }
        Op::Remove => w.advance_start(),
        Op::Write(b) => w.set_byte_at_cursor(b),
        Op::SetBit(i, v) => w.set_bit_at_cursor(Bit::from(v), i),
    }
}

fn compare(w: &InputWindow, m: &Model, all_bits: bool) -> CaseResult {
    let n = m.q.len();
    ensure!(w.size() == n, "size {} instead of {}", w.size(), n);
    ensure!(w.max_size() == m.cap, "max size {}", w.max_size());
    for &p in m.removed.iter() {
        ensure!(w[WindowIndex::new(p)] == 0, "removed cell {} is not zero", p);
    }
    if n == 0 {
        let seen = RefCell::new(0);
        guarded(|| { w.for_each_suffix(|_| *seen.borrow_mut() += 1); Ok(()) }).map_err(|e| format!("enumeration of no suffixes: {}", e))?;
        ensure!(*seen.borrow() == 0, "an empty window has {} suffixes", seen.borrow());
        if w.start().raw() < m.cap && (m.next > 0 || !m.removed.is_empty()) {
            ensure!(w.start().raw() == m.next, "start of empty window");
        }
        return Ok(());
    }
    let bytes: Vec<u8> = m.q.iter().map(|x| x.1).collect();
    let start = w.start();
    ensure!(start.raw() == m.q[0].0, "start {} instead of {}", start, m.q[0].0);
    ensure!(w.cursor().raw() == m.q[n - 1].0, "cursor {} instead of {}", w.cursor(), m.q[n - 1].0);
    let pos: Vec<WindowIndex> = (0..n).map(|i| w.index_add(start, i)).collect();
    for i in 0..n {
        ensure!(pos[i].raw() == m.q[i].0, "position {} of the queue is {}", i, pos[i]);
        ensure!(w[pos[i]] == bytes[i], "byte {} reads {:02x} instead of {:02x}", i, w[pos[i]], bytes[i]);
        for b in 0..8 {
            ensure!(w.get_bit(pos[i], b).is_1() == ((bytes[i] >> b) & 1 == 1), "bit {} of byte {}", b, i);
        }
        if i + 1 < n {
            ensure!(w.index_increment(pos[i]) == pos[i + 1], "increment at {}", i);
            ensure!(w.index_decrement(pos[i + 1]) == pos[i], "decrement at {}", i + 1);
        }
        for j in 0..n {
            if j <= i {
                ensure!(w.index_diff(pos[i], pos[j]) == i - j, "diff {} {} = {}", i, j, w.index_diff(pos[i], pos[j]));
                ensure!(w.index_subtract(pos[i], i - j) == pos[j], "subtract {} {}", i, j);
                ensure!(w.index_add(pos[j], i - j) == pos[i], "add {} {}", j, i);
            }
            ensure!(w.index_is_smaller(pos[i], pos[j]) == (i < j), "order {} {}", i, j);
            ensure!(w.index_is_smaller_or_equal(pos[i], pos[j]) == (i <= j), "order-or-equal {} {}", i, j);
            for b in 0..8 {
                ensure!(w.bytes_differ_on(pos[i], pos[j], b) == ((bytes[i] ^ bytes[j]) >> b & 1 == 1), "differ on {} {} bit {}", i, j, b);
            }
            let room = n - i.max(j);
            for len in 0..=room {
                for bit in 0..8 {
                    if len == room && bit != 7 { continue; }
                    if !all_bits && bit != 7 && bit != 6 && bit != 0 && bit != 3 { continue; }
                    let expected = bytes[i..i + len] == bytes[j..j + len] &&
                        (bit == 7 || (bytes[i + len] ^ bytes[j + len]) as u32 >> (bit + 1) == 0);
                    let got = w.compare_for_equal_prefix(pos[i], pos[j], bit, len);
                    ensure!(got == expected, "prefix comparison of {} and {} length {} bit {} gives {}", i, j, len, bit, got);
                }
            }
        }
    }
    let seen = RefCell::new(vec![]);
    w.for_each_suffix(|i| seen.borrow_mut().push(i));
    ensure!(*seen.borrow() == pos, "suffixes {:?} instead of {:?}", seen.borrow(), pos);
    Ok(())
}

fn main() {
    let mut c = Check::new("C10", "model_checking");
    let ops = [Op::Append(0x00), Op::Append(0x80), Op::Append(0xa1), Op::Remove,
        Op::Write(0x81), Op::SetBit(7, true), Op::SetBit(0, false)];
    let depth = c.pick(8usize, 9);
    let configs: Vec<(usize, usize)> = (1..=4).flat_map(|cap| (0..cap).map(move |s| (cap, s))).collect();
    let nops = ops.len() as u64;
    let n = words_up_to(nops, depth);
    let nc = configs.len() as u64;
    let cf = configs.clone();
    c.stage("sequences", &format!("all sequences of up to {} operations out of {:?} that respect the preconditions, capacities 1..=4, every initial shift; every query compared in the final state", depth, ops),
        n * nc, move |_, case, l| {
            let v = split(case, &[n, nc]);
            let (cap, shift) = cf[v[1] as usize];
            let seq: Vec<Op> = word(v[0], nops).iter().map(|&i| ops[i]).collect();
            l.describe(|| format!("capacity {} shift {} {:?}", cap, shift, seq));
            let mut m = Model::new(cap, shift);
            for &o in &seq {
                if !m.allowed(o) { return Ok(()); }
                m.apply(o);
            }
            let mut w = InputWindow::new(cap, shift);
            for &o in &seq { apply(&mut w, o); }
            l.states += 1; l.transitions += seq.len() as u64; l.traces += 1;
            l.outcome(m.q.iter().fold(cap as u64, |h, x| mix(h, (x.0 * 256) as u64 + x.1 as u64)));
            compare(&w, &m, true)
        });

    // Long histories: every fill level, number of slides and shrink level.
    let maxcap = c.pick(9usize, 17);
    let configs: Vec<(usize, usize)> = (1..=maxcap).flat_map(|cap| (0..cap).map(move |s| (cap, s))).collect();
    let nc = configs.len() as u64;
    let kinds = 3u64;
    c.stage("long_sliding", &format!("capacities 1..={}, every initial shift: grow to every size, slide by every distance up to three capacities, shrink to every size (0 included) and regrow, with 3 byte patterns; compared after every operation", maxcap),
        nc * kinds, move |_, case, l| {
            let v = split(case, &[nc, kinds]);
            let (cap, shift) = configs[v[0] as usize];
            l.describe(|| format!("capacity {} shift {} pattern {}", cap, shift, v[1]));
            let byte = |i: usize| match v[1] { 0 => [0x80u8, 0x81, 0x80, 0xc0][i * i % 4], 1 => (i * 37 + 11) as u8, _ => [0xffu8, 0x00, 0xfe][i % 3] };
            for grow in 1..=cap {
                for shrink in 0..=grow {
                    let mut m = Model::new(cap, shift);
                    let mut w = InputWindow::new(cap, shift);
                    let mut i = 0;
                    let mut go = |o: Op, m: &mut Model, w: &mut InputWindow, l: &mut Local| {
                        m.apply(o);
                        apply(w, o);
                        l.transitions += 1; l.states += 1;
                        compare(w, m, false).map_err(|e| format!("after {:?} (grown to {}, shrinking to {}): {}", o, grow, shrink, e))
                    };
                    for _ in 0..grow { go(Op::Append(byte(i)), &mut m, &mut w, l)?; i += 1; }
                    let slides = if shrink == 0 { 3 * cap } else { (grow + shrink) % (cap + 1) };
                    for _ in 0..slides {
                        go(Op::Remove, &mut m, &mut w, l)?;
                        go(Op::Append(byte(i)), &mut m, &mut w, l)?; i += 1;
                    }
                    while m.q.len() > shrink { go(Op::Remove, &mut m, &mut w, l)?; }
                    for _ in shrink..cap { go(Op::Append(byte(i)), &mut m, &mut w, l)?; i += 1; }
                    l.traces += 1;
                }
            }
            Ok(())
        });
    // Large windows: every cell, index arithmetic at boundary offsets, long equal prefixes.
    let caps: Vec<usize> = c.pick(vec![127usize, 128, 129, 255, 256, 257, 300, 1_000, 4_097, 65_535, 65_536, 65_537, 100_000, 1_048_577], vec![127, 128, 129, 255, 256, 257, 300, 1_000, 4_097, 65_535, 65_536, 65_537, 100_000, 1_048_577, 10_000_000]);
    let nk = caps.len() as u64;
    let cp = &caps;
    c.stage("large_windows", &format!("capacities {:?}, 4 initial shifts, 3 byte patterns: filled, slid through two and a half capacities, emptied, refilled and slid again; each new, old and removed byte, and at 24 points in between all cells, all suffixes and index arithmetic, ordering and prefix comparison of all pairs of boundary offsets and lengths", caps),
        nk * 12, move |_, case, l| {
            let v = split(case, &[nk, 4, 3]);
            let cap = cp[cp.len() - 1 - v[0] as usize];
            let shift = [0, 1, cap / 2, cap - 1][v[1] as usize];
            l.describe(|| format!("capacity {} shift {} pattern {}", cap, shift, v[2]));
            if l.sampling() { return Ok(()); }
            let byte = |i: usize| match v[2] { 0 => (i % 13 * 19) as u8 | 1, 1 => if i % 300 == 299 { 0x81 } else { 0x80 }, _ => ((i as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 56) as u8 };
            let mut w = InputWindow::new(cap, shift);
            let (mut first, mut next) = (0usize, 0usize); // queue holds bytes first..next
            let at = |i: usize| (shift + i) % cap;
            let every = (cap / 8).max(1);
            let mut ops = 0usize;
            // fill and slide, empty, refill and slide again
            let fills = [cap * 5 / 2, cap * 5 / 2 + cap + cap / 3];
            let mut phase = 0;
            loop {
                let emptying = phase == 1;
                if !emptying && next == fills[phase / 2] { if phase == 2 { break; } phase += 1; continue; }
                if emptying && first == next { ensure!(w.size() == 0, "not empty"); phase = 2; continue; }
                if emptying || next - first == cap {
                    w.advance_start();
                    ensure!(w[WindowIndex::new(at(first))] == 0, "removed cell is not zero");
                    first += 1;
                } else {
                    w.advance_cursor();
                    ensure!(w[w.cursor()] == 0, "new cell is not zero");
                    let b = byte(next);
                    if b != 0 { w.set_byte_at_cursor(b); }
                    next += 1;
                }
                ops += 1;
                l.transitions += 1;
                let n = next - first;
                ensure!(w.size() == n, "operation {}: size {} instead of {}", ops, w.size(), n);
                ensure!(n == 0 || (w.start().raw() == at(first) && w.cursor().raw() == at(next - 1)), "operation {}: start {} cursor {}", ops, w.start(), w.cursor());
                if n == 0 || ops % every != 0 { continue; }
                // whole content
                for i in 0..n { ensure!(w[WindowIndex::new(at(first + i))] == byte(first + i), "operation {}: byte {} changed", ops, i); }
                let count = RefCell::new(0usize);
                let good = RefCell::new(true);
                w.for_each_suffix(|s| { let mut c = count.borrow_mut(); if s.raw() != at(first + *c) { *good.borrow_mut() = false; } *c += 1; });
                ensure!(*good.borrow() && *count.borrow() == n, "operation {}: suffixes", ops);
                l.states += n as u64;
                let mut offs: Vec<usize> = vec![0, 1, 2, 12, 13, 14, 127, 128, 255, 256, 257, 300, 600, 65_535, 65_536, n / 2, n / 3, n.saturating_sub(1), n.saturating_sub(2), n.saturating_sub(14), cap - shift, (cap - shift).saturating_sub(1), cap - at(first), cap - at(first) + 1, (cap - at(first)).saturating_sub(300)];
                offs.retain(|&o| o < n);
                offs.sort(); offs.dedup();
                let start = w.start();
                for &i in &offs {
                    let pi = w.index_add(start, i);
                    ensure!(pi.raw() == at(first + i), "add {}", i);
                    for &j in &offs {
                        let pj = w.index_add(start, j);
                        if j <= i {
                            ensure!(w.index_diff(pi, pj) == i - j, "operation {}: difference of {} and {} is {}", ops, i, j, w.index_diff(pi, pj));
                            ensure!(w.index_subtract(pi, i - j) == pj, "operation {}: {} - {}", ops, i, i - j);
                        }
                        ensure!(w.index_is_smaller(pi, pj) == (i < j) && w.index_is_smaller_or_equal(pi, pj) == (i <= j), "operation {}: order of {} and {}", ops, i, j);
                        let room = n - i.max(j);
                        let same = if i == j { room } else { (0..room).take_while(|&k| byte(first + i + k) == byte(first + j + k)).count() };
                        for &len in &[0usize, 1, 63, 64, 65, 255, 256, 257, same.saturating_sub(1), same, same + 1] {
                            if len > room { continue; }
                            for &bit in &[7usize, 6, 0] {
                                if len == room && bit != 7 { continue; }
                                let expected = len <= same && (bit == 7 || (byte(first + i + len) ^ byte(first + j + len)) as u32 >> (bit + 1) == 0);
                                let got = w.compare_for_equal_prefix(pi, pj, bit, len);
                                ensure!(got == expected, "operation {}: prefix comparison of {} and {} length {} bit {} gives {}", ops, i, j, len, bit, got);
                                l.transitions += 1;
                            }
                        }
                    }
                }
            }
            l.traces += 1;
            l.outcome(mix(cap as u64, ops as u64));
            Ok(())
        });
    c.assume("operations outside their preconditions (appending to a full window, removing from or writing to an empty one) are not part of the property");
    c.finish()
}
