//! Runs code instruction by instruction (trap flag) on the calling thread and lets a second
//! thread perform one whole operation of its own between any two instructions.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
extern "C" { fn sigaction(signal: i32, new: *const SigAction, old: *mut SigAction) -> i32; fn sched_yield() -> i32; }
const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;

/// Meeting point of the two threads.
pub struct Gate { asked: AtomicU64, served: AtomicU64, late: AtomicU64, instructions: AtomicU64, over: AtomicBool }
thread_local! { static GATE: Cell<*const Gate> = const { Cell::new(std::ptr::null()) }; }

/// About 10 ms: by then the other thread waits for something the interrupted one holds
/// (or for a processor); it goes on as soon as it can.
const PATIENCE: u64 = 30_000_000;
/// So many late turns mean that there is no processor for the other thread: the rest of the
/// instructions is executed without turns.
const MAX_LATE: u64 = 1000;

extern "C" fn on_trap(_signal: i32, _info: usize, _context: usize) {
    let gate = GATE.with(|g| g.get());
    if gate.is_null() { return; }
    let g = unsafe { &*gate };
    g.instructions.fetch_add(1, SeqCst);
    let turn = g.asked.load(SeqCst);
    if g.served.load(SeqCst) != turn || g.late.load(SeqCst) >= MAX_LATE { return; }
    g.asked.store(turn + 1, SeqCst);
    let start = unsafe { core::arch::x86_64::_rdtsc() };
    let mut spins = 0u32;
    while g.served.load(SeqCst) != turn + 1 {
        spins += 1;
        if spins > 5_000 { unsafe { sched_yield(); } }
        if unsafe { core::arch::x86_64::_rdtsc() }.wrapping_sub(start) > PATIENCE { g.late.fetch_add(1, SeqCst); return; }
        std::hint::spin_loop();
    }
}

fn trap_flag(on: bool) {
    unsafe {
        if on { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq"); }
        else { core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq"); }
    }
}

pub struct Counts { pub instructions: u64, pub turns: u64, pub late: u64 }

/// `main` runs on this thread and single-steps what it wraps with the given function;
/// `other(k)` is called on another thread between any two of those instructions, k = 0, 1, ...
/// It must return false when something went wrong.
pub fn interleave<R>(main: impl FnOnce(&dyn Fn(&mut dyn FnMut())) -> R, other: impl FnMut(u64) -> bool + Send) -> (R, Counts) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let action = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        assert_eq!(sigaction(SIGTRAP, &action, std::ptr::null_mut()), 0);
    });
    let gate = Gate { asked: AtomicU64::new(0), served: AtomicU64::new(0), late: AtomicU64::new(0), instructions: AtomicU64::new(0), over: AtomicBool::new(false) };
    let g = &gate;
    let mut other = other;
    let r = std::thread::scope(|scope| {
        scope.spawn(move || {
            let mut done = 0;
            let mut fine = true;
            let mut idle = 0u32;
            loop {
                if g.asked.load(SeqCst) == done {
                    if g.over.load(SeqCst) { return; }
                    idle += 1;
                    if idle > 5_000 { std::thread::yield_now(); } else { std::hint::spin_loop(); }
                    continue;
                }
                idle = 0;
                if fine { fine = other(done); }
                done += 1;
                g.served.store(done, SeqCst);
            }
        });
        struct Over<'a>(&'a Gate);
        impl<'a> Drop for Over<'a> { fn drop(&mut self) { trap_flag(false); self.0.over.store(true, SeqCst); } }
        let _over = Over(g);
        main(&|f| {
            GATE.with(|x| x.set(g as *const Gate));
            trap_flag(true);
            f();
            trap_flag(false);
            GATE.with(|x| x.set(std::ptr::null()));
        })
    });
    (r, Counts { instructions: gate.instructions.load(SeqCst), turns: gate.asked.load(SeqCst), late: gate.late.load(SeqCst) })
}
