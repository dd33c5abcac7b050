//! C31: broken byte streams and missing inputs are reported, never papered over.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
#[allow(dead_code)]
#[path = "../predict.rs"]
mod predict;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::process::Command;
use std::rc::Rc;

use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::fixed_point::FixU32;
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use coder::*;
use mc::inputs::structured;
use predict::compress;
use mc::tools::*;
use mc::*;

/// What the n-th transfer answers.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer { Error(io::ErrorKind), Nothing }
const ANSWERS: [Answer; 5] = [Answer::Error(io::ErrorKind::Other), Answer::Nothing, Answer::Error(io::ErrorKind::WouldBlock),
    Answer::Error(io::ErrorKind::BrokenPipe), Answer::Error(io::ErrorKind::UnexpectedEof)];

/// Every kind of failure that is not a request to try again.
const KINDS: [io::ErrorKind; 32] = {
    use std::io::ErrorKind::*;
    [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected,
        AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty,
        ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded,
        FileTooLarge, ResourceBusy, Unsupported, UnexpectedEof, OutOfMemory, Other]
};

#[derive(Default)]
struct Log { data: Vec<u8>, failed: bool }

/// Accepts `good` bytes, then gives the answer once (the rest of the bytes are swallowed,
/// so that the drop of the encoder during a panic cannot fail a second time) or for ever.
struct BadSink { log: Rc<RefCell<Log>>, good: usize, answer: Answer, forever: bool, chunk: usize }
impl Write for BadSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let mut g = self.log.borrow_mut();
        if g.failed && (!self.forever || std::thread::panicking()) { return Ok(b.len()); }
        if g.data.len() >= self.good {
            g.failed = true;
            return match self.answer { Answer::Error(k) => Err(io::Error::from(k)), Answer::Nothing => Ok(0) };
        }
        let n = b.len().min(self.chunk).min(self.good - g.data.len());
        g.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Supplies `good` bytes of the data, then the answer for ever.
struct BadSource<'a> { data: &'a [u8], good: usize, answer: Answer, pos: usize, failed: Rc<RefCell<bool>> }
impl<'a> Read for BadSource<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.pos >= self.good {
            *self.failed.borrow_mut() = true;
            return match self.answer { Answer::Error(k) => Err(io::Error::from(k)), Answer::Nothing => Ok(0) };
        }
        b[0] = self.data[self.pos];
        self.pos += 1;
        Ok(1)
    }
}

fn bad_sink(evs: &[Ev], plain: &[u8], good: usize, answer: Answer, forever: bool) -> CaseResult {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut sink = BadSink { log: log.clone(), good, answer, forever, chunk: 1 };
    let mut enc = Encoder::new(&mut sink);
    let tell = |what: &str| format!("the sink answers {:?} after {} of {} bytes: {}", answer, good, plain.len(), what);
    let mut noticed = false;
    for (i, e) in evs.iter().enumerate() {
        let refused = refuses(|| match *e { Ev::Bit(p, b) => enc.encode_bit(prob(p), b.into()), Ev::Rare(r) => enc.encode_rare_event(r) });
        let failed = log.borrow().failed;
        ensure!(!failed || refused, "{}", tell(&format!("symbol {} is encoded as if nothing had happened", i)));
        ensure!(failed || !refused, "{}", tell(&format!("symbol {} is refused before the sink failed", i)));
        if refused { noticed = true; break; }
    }
    let refused = refuses(move || drop(enc));
    let l = log.borrow();
    ensure!(l.failed, "{}", tell("the encoder never writes the rest"));
    if !noticed { ensure!(refused, "{}", tell("finishing the code hides the failure")); }
    ensure!(plain[..good] == l.data[..], "{}", tell(&format!("{:02x?} was accepted, which is no prefix of {:02x?}", l.data, plain)));
    Ok(())
}

fn bad_source(evs: &[Ev], code: &[u8], good: usize, answer: Answer) -> CaseResult {
    let failed = Rc::new(RefCell::new(false));
    let mut src = BadSource { data: code, good, answer, pos: 0, failed: failed.clone() };
    let tell = |what: &str| format!("the source answers {:?} after {} of {} bytes: {}", answer, good, code.len(), what);
    let mut at = 0usize;
    let done = guarded(|| {
        let mut dec = Decoder::new(&mut src);
        for e in evs {
            match *e {
                Ev::Bit(p, b) => ensure!(dec.decode_bit(prob(p)).is_1() == b, "{}", tell(&format!("symbol {} is decoded wrongly", at))),
                Ev::Rare(r) => ensure!(dec.decode_rare_event() == r, "{}", tell(&format!("flag {} is decoded wrongly", at))),
            }
            ensure!(!*failed.borrow(), "{}", tell(&format!("symbol {} is returned although the read failed", at)));
            at += 1;
        }
        Ok(())
    });
    match done {
        Ok(()) => Err(tell("everything is decoded")),
        Err(e) if !*failed.borrow() => Err(tell(&format!("fails early at symbol {}: {}", at, e))),
        Err(e) if !e.starts_with("panic") => Err(e),
        Err(_) => Ok(()),
    }
}

fn all_faults(evs: &[Ev], answers: &[Answer], l: &mut Local) -> CaseResult {
    let code = encode(evs, Fault::None);
    for good in 0..code.len() {
        for &a in answers {
            for &forever in &[false, true] { bad_sink(evs, &code, good, a, forever)?; }
            bad_source(evs, &code, good, a)?;
            l.states += 3;
            l.transitions += 3 * (evs.len() as u64 + 1);
        }
    }
    l.traces += code.len() as u64 * answers.len() as u64 * 3;
    l.max("fault_points", code.len() as u64);
    l.outcome(code.iter().fold(code.len() as u64, |h, &b| mix(h, b as u64)));
    Ok(())
}

fn main() {
    let mut c = Check::new("C31", "fault_enumeration");
    let alpha: Vec<Ev> = [1u32 << 22, 1, P_ONE - 1].iter().flat_map(|&p| [Ev::Bit(p, false), Ev::Bit(p, true)]).chain([Ev::Rare(false), Ev::Rare(true)]).collect();
    let al = &alpha;
    let depth = c.pick(4usize, 6);
    c.stage("faults", &format!("all event sequences of length 0..={} over {} symbols; every byte of the code as fault point of the sink (once and for ever) and of the source; {} kinds of failure", depth, al.len(), ANSWERS.len()),
        words_up_to(al.len() as u64, depth), move |_, case, l| {
            let evs: Vec<Ev> = word(case, al.len() as u64).iter().map(|&i| al[i]).collect();
            l.describe(|| format!("{:?}", evs));
            all_faults(&evs, &ANSWERS, l)
        });
    let kinds: Vec<Answer> = KINDS.iter().map(|&k| Answer::Error(k)).collect();
    let short = c.pick(3usize, 4);
    c.stage("kinds", &format!("all event sequences of length 0..={} over {} symbols, then ten symbols; every fault point; all {} kinds of failure", short, al.len(), KINDS.len()),
        words_up_to(al.len() as u64, short), move |_, case, l| {
            let mut evs: Vec<Ev> = word(case, al.len() as u64).iter().map(|&i| al[i]).collect();
            for i in 0..10 { evs.push(Ev::Bit(1 << 18, i % 3 > 0)); }
            l.describe(|| format!("{:?}", evs));
            all_faults(&evs, &kinds, l)
        });
    // runs of pending bytes: the fault falls among bytes written in one burst
    let max = c.pick(40u64, 300);
    c.stage("bursts", &format!("runs of up to {} pending ff bytes resolved with and without a carry, every fault point", max), max * 2 * 2, move |_, case, l| {
        let v = split(case, &[max, 2, 2]);
        // halves: a code value just below or at the byte boundary
        let mut evs = vec![Ev::Bit(1 << 22, false)];
        for _ in 0..8 * v[0] + 20 { evs.push(Ev::Bit(1 << 22, v[1] == 0)); }
        evs.push(Ev::Bit(1 << 22, v[2] == 0));
        for _ in 0..40 { evs.push(Ev::Bit(1 << 22, v[2] == 0)); }
        l.describe(|| format!("{} symbols, {} then {}", evs.len(), v[1], v[2]));
        all_faults(&evs, &ANSWERS[..2], l)
    });
    let luts = LookUpTables::new();
    let lu = &luts;
    let files: Vec<(String, Vec<u8>)> = std::iter::once(("nothing".to_string(), vec![]))
        .chain(structured(c.thorough()).into_iter().map(|(n, mut b)| { b.truncate(300); (n, b) })).collect();
    let fl = &files;
    let step = c.pick(3usize, 1);
    c.stage("compressed_files", &format!("{} files of up to 300 bytes compressed with the predictor, the code cut at every {} byte: decompression ends loudly, everything before is right", fl.len(), if step == 1 { "single" } else { "third" }),
        fl.len() as u64, move |_, case, l| {
            let (name, bytes) = &fl[case as usize];
            l.describe(|| name.clone());
            let (code, _) = compress(bytes, lu);
            for good in (0..code.len()).step_by(step) {
                let failed = Rc::new(RefCell::new(false));
                let mut src = BadSource { data: &code, good, answer: Answer::Nothing, pos: 0, failed: failed.clone() };
                let done = guarded(|| {
                    let mut dec = Decoder::new(&mut src);
                    let mut p = Predictor::new(lu);
                    for (n, &x) in bytes.iter().enumerate() {
                        p.start_new_byte();
                        for k in (0..8).rev() {
                            let q: FinalProbability = p.predict().to_fix_u32();
                            let bit = dec.decode_bit(q);
                            ensure!(!*failed.borrow(), "a bit of byte {} is returned although the code ended after {} bytes", n, good);
                            ensure!(bit.is_1() == ((x >> k) & 1 == 1), "byte {} is restored wrongly from a code cut after {} of {} bytes", n, good, code.len());
                            p.update(bit);
                            l.transitions += 1;
                        }
                    }
                    Ok(())
                });
                l.states += 1; l.traces += 1;
                match done {
                    Ok(()) => return Err(format!("everything is restored from {} of {} bytes", good, code.len())),
                    Err(e) => ensure!(*failed.borrow() && e.starts_with("panic"), "{}", e),
                }
            }
            l.outcome(code.len() as u64);
            Ok(())
        });
    let scratch = Scratch::new("c31");
    let sc = &scratch;
    // (tool, arguments: F a good file, M a missing one, D a directory; everything else literal, good)
    let runs: Vec<(&str, Vec<&str>, bool)> = vec![
        ("demixer", vec![], false), ("demixer", vec!["M"], false), ("demixer", vec!["D"], false), ("demixer", vec![""], false),
        ("demixer", vec!["M", "F"], false), ("demixer", vec!["D", "F"], false), ("demixer", vec!["F"], true),
        ("print_histories", vec![], false), ("print_histories", vec!["tree"], false), ("print_histories", vec!["F"], false),
        ("print_histories", vec!["F", "tree"], false), ("print_histories", vec!["", "F"], false), ("print_histories", vec!["Tree", "F"], false),
        ("print_histories", vec!["brute force", "F"], false), ("print_histories", vec!["naive", "F"], false), ("print_histories", vec!["trees", "F"], false),
        ("print_histories", vec!["tree", "M"], false), ("print_histories", vec!["tree", "D"], false), ("print_histories", vec!["tree", ""], false),
        ("print_histories", vec!["fat_map", "M"], false), ("print_histories", vec!["fat_map", "D"], false),
        ("print_histories", vec!["brute_force", "M"], false), ("print_histories", vec!["brute_force", "D"], false),
        ("print_histories", vec!["tree", "F"], true), ("print_histories", vec!["fat_map", "F"], true), ("print_histories", vec!["brute_force", "F"], true),
    ];
    let rn = &runs;
    c.stage("tools", "every combination of missing arguments, unknown source, missing file and directory, and the right ones, for both tools", rn.len() as u64, move |_, case, l| {
        let (name, args, good) = &rn[case as usize];
        l.describe(|| format!("{} {:?}", name, args));
        let f = sc.file(b"abracadabra")?;
        let dir = f.0.parent().unwrap().to_path_buf();
        let full: Vec<std::ffi::OsString> = args.iter().map(|a| match *a {
            "F" => f.0.clone().into_os_string(), "M" => dir.join("missing").into_os_string(), "D" => dir.clone().into_os_string(), s => s.into() }).collect();
        let o = Command::new(tool(name)).current_dir(&dir).args(&full).output().map_err(|e| e.to_string())?;
        ensure!(o.status.success() == *good, "the tool ends with {}", o.status);
        ensure!(o.stdout.is_empty() != *good, "the tool prints {:?}", String::from_utf8_lossy(&o.stdout).chars().take(200).collect::<String>());
        l.states += 1; l.transitions += 1; l.traces += 1;
        l.outcome(o.status.code().unwrap_or(-1) as u64);
        Ok(())
    });
    sc.remove();
    c.assume("a failing sink keeps what it accepted; the failure of a sink during the unwinding of an earlier failure is not injected (it would end the process)");
    c.finish()
}
