//! Events for the arithmetic coder, a recording sink, a counting source with
//! injectable environment answers, and a big-integer reference coder.
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::fixed_point::FixedPoint;
use std::io::{self, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev { Bit(u32, bool), Rare(bool) }

pub fn prob(raw: u32) -> FinalProbability { FinalProbability::new(raw, 23) }

pub const P_ONE: u32 = 1 << 23;

/// Environment answers of the sink: what happens on the n-th write call.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault { None, InterruptedAt(usize), InterruptedEvery }

pub struct Sink { pub data: Vec<u8>, pub fault: Fault, calls: usize, again: bool }

impl Sink {
    pub fn new(fault: Fault) -> Sink {
        Sink { data: vec![], fault, calls: 0, again: false }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let call = self.calls;
        let hit = match self.fault {
            Fault::None => false,
            Fault::InterruptedAt(n) => n == call,
            Fault::InterruptedEvery => !self.again,
        };
        if hit {
            self.again = true;
            if let Fault::InterruptedAt(_) = self.fault { self.fault = Fault::None; }
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.again = false;
        self.calls += 1;
        self.data.push(buf[0]); // shortest legal write
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub struct Source<'a> {
    pub data: &'a [u8], pub pos: usize, pub fault: Fault, calls: usize, again: bool,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], fault: Fault) -> Self {
        Source { data, pos: 0, fault, calls: 0, again: false }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let call = self.calls;
        let hit = match self.fault {
            Fault::None => false,
            Fault::InterruptedAt(n) => n == call,
            Fault::InterruptedEvery => !self.again,
        };
        if hit {
            self.again = true;
            if let Fault::InterruptedAt(_) = self.fault { self.fault = Fault::None; }
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.again = false;
        self.calls += 1;
        if self.pos >= self.data.len() { return Ok(0); }
        buf[0] = self.data[self.pos];
        self.pos += 1;
        Ok(1)
    }
}

pub fn encode(events: &[Ev], fault: Fault) -> Vec<u8> {
    let mut sink = Sink::new(fault);
    {
        let mut enc = Encoder::new(&mut sink);
        for e in events {
            match *e {
                Ev::Bit(p, b) => enc.encode_bit(prob(p), b.into()),
                Ev::Rare(r) => enc.encode_rare_event(r),
            }
        }
    }
    sink.data
}

/// Decodes `events.len()` symbols and compares; also checks the bytes consumed.
pub fn decode_and_compare(events: &[Ev], code: &[u8], fault: Fault) -> Result<(), String> {
    let mut src = Source::new(code, fault);
    {
        let mut dec = Decoder::new(&mut src);
        for (i, e) in events.iter().enumerate() {
            let ok = match *e {
                Ev::Bit(p, b) => dec.decode_bit(prob(p)) == Bit::from(b),
                Ev::Rare(r) => dec.decode_rare_event() == r,
            };
            if !ok {
                return Err(format!("symbol {} decoded differently", i));
            }
        }
    }
    if src.pos != code.len() {
        return Err(format!("decoder consumed {} of {} bytes", src.pos, code.len()));
    }
    Ok(())
}

pub fn round_trip(events: &[Ev], fault: Fault) -> Result<Vec<u8>, String> {
    let code = encode(events, fault);
    decode_and_compare(events, &code, fault)
        .map_err(|e| format!("{} (code {:02x?})", e, code))?;
    Ok(code)
}

/// Reference: exact low end and width of the interval with big integers.
pub struct RefCoder {
    /// big-endian base-256 digits; register of 31 bits plus emitted bytes
    pub low: Vec<u8>,
    pub range: u64,
    pub carries_into_emitted: u64,
    pub longest_ff_carry: u64,
}

impl RefCoder {
    pub fn new() -> Self {
        RefCoder { low: vec![0; 4], range: 0x7fff_ffff,
            carries_into_emitted: 0, longest_ff_carry: 0 }
    }
    fn normalize(&mut self) {
        while self.range < 0x0080_0000 {
            self.low.push(0);
            self.range <<= 8;
        }
    }
    fn add(&mut self, v: u64) {
        // The register is 31 bits: bit 31 of the last four bytes belongs to
        // the byte sequence emitted before it (shifted by one bit).
        let n = self.low.len();
        let mut carry = v;
        let before = self.emitted();
        for i in (0..n).rev() {
            if carry == 0 { break; }
            let s = self.low[i] as u64 + (carry & 0xff);
            self.low[i] = s as u8;
            carry = (carry >> 8) + (s >> 8);
        }
        assert_eq!(carry, 0, "reference overflow");
        let after = self.emitted();
        if before != after {
            self.carries_into_emitted += 1;
            let run = before.iter().rev().take_while(|&&b| b == 0xff).count() as u64;
            self.longest_ff_carry = self.longest_ff_carry.max(run);
        }
    }
    /// Bytes that have already left the 31-bit register.
    fn emitted(&self) -> Vec<u8> {
        let all = self.code();
        all[..all.len() - 4].to_vec()
    }
    pub fn event(&mut self, e: Ev) {
        self.normalize();
        match e {
            Ev::Bit(p, b) => {
                let h = (self.range * p as u64) >> 23;
                if b { self.add(h); self.range -= h; } else { self.range = h; }
            }
            Ev::Rare(r) => {
                if r { let f = self.range - 1; self.add(f); self.range = 1; }
                else { self.range -= 1; }
            }
        }
    }
    /// Low end, aligned to whole bytes (one spare bit at the end).
    pub fn code(&self) -> Vec<u8> { shl1(&self.low) }
}

fn shl1(d: &[u8]) -> Vec<u8> {
    let mut r = vec![0; d.len()];
    for i in 0..d.len() {
        let next = if i + 1 < d.len() { d[i + 1] >> 7 } else { 0 };
        r[i] = (d[i] << 1) | next;
    }
    r
}

/// value(code) - low must be in [0, range); code may be longer or shorter.
pub fn in_interval(reference: &RefCoder, code: &[u8]) -> bool {
    let n = reference.low.len().max(code.len()) + 1;
    let mut lo = reference.code();
    let scale_bytes = n - lo.len();
    lo.resize(n, 0);
    let mut c = code.to_vec();
    c.resize(n, 0);
    if c < lo { return false; }
    // lo + (range << 1) * 256^scale_bytes
    let mut hi = lo;
    let mut carry = (reference.range << 1) as u64;
    let mut i = n - scale_bytes;
    while carry > 0 {
        if i == 0 { return true; }
        i -= 1;
        let s = hi[i] as u64 + (carry & 0xff);
        hi[i] = s as u8;
        carry = (carry >> 8) + (s >> 8);
    }
    c < hi
}
