//! Seeded cooperative scheduler for real threads. Sim threads ("actors") run one at a time:
//! control moves only at scheduling points (stream I/O, operation boundaries, futex wait/wake
//! of the code under test), and who runs next is read from the case's schedule.
//! Blocking synchronisation of the code under test (std's futex based RwLock/Mutex/Condvar) is
//! intercepted at the libc `syscall` symbol.

use std::cell::Cell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

use crate::sysio::raw_syscall;

const MAX_ACTORS: usize = 16;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Runnable,
    Blocked(usize),
    Done,
}

struct State {
    st: [St; MAX_ACTORS],
    n: usize,
    current: usize,
    decisions: Vec<u32>,
    pos: usize,
    pub points: u64,
    pub switches: u64,
    pub blocks: u64,
    hash: u64,
}

static STATE: Mutex<State> = Mutex::new(State {
    st: [St::Idle; MAX_ACTORS],
    n: 0,
    current: 0,
    decisions: Vec::new(),
    pos: 0,
    points: 0,
    switches: 0,
    blocks: 0,
    hash: 0,
});

static ACTIVE: AtomicBool = AtomicBool::new(false);
static GO: [AtomicU32; MAX_ACTORS] = [const { AtomicU32::new(0) }; MAX_ACTORS];
static FINISHED: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ACTOR: Cell<usize> = const { Cell::new(usize::MAX) };
    /// Set while the harness itself runs code that may use futexes.
    static PASS: Cell<bool> = const { Cell::new(false) };
}

pub struct SchedStats {
    pub points: u64,
    pub switches: u64,
    pub blocks: u64,
    pub hash: u64,
}

fn lock() -> std::sync::MutexGuard<'static, State> {
    match STATE.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn current_actor() -> i64 {
    let a = ACTOR.with(|a| a.get());
    if a == usize::MAX { -1 } else { a as i64 }
}

fn raw_futex_wait(a: &AtomicU32, expected: u32) {
    while a.load(Ordering::SeqCst) == expected {
        unsafe {
            // FUTEX_WAIT | FUTEX_PRIVATE
            raw_syscall(202, [a.as_ptr() as usize, 128, expected as usize, 0, 0, 0]);
        }
    }
}

fn raw_futex_wake(a: &AtomicU32) {
    unsafe {
        raw_syscall(202, [a.as_ptr() as usize, 129, i32::MAX as usize, 0, 0, 0]);
    }
}

fn give(to: usize) {
    GO[to].store(1, Ordering::SeqCst);
    raw_futex_wake(&GO[to]);
}

fn await_turn(me: usize) {
    raw_futex_wait(&GO[me], 0);
    GO[me].store(0, Ordering::SeqCst);
}

/// Picks who runs next. None: nobody is runnable.
fn choose(s: &mut State) -> Option<usize> {
    let run: Vec<usize> = (0..s.n).filter(|i| s.st[*i] == St::Runnable).collect();
    if run.is_empty() {
        return None;
    }
    let d = if s.pos < s.decisions.len() {
        let d = s.decisions[s.pos];
        s.pos += 1;
        d
    } else {
        0
    };
    s.points += 1;
    let c = if d == 0 {
        if run.contains(&s.current) { s.current } else { run[0] }
    } else {
        run[(d as usize - 1) % run.len()]
    };
    s.hash = (s.hash ^ c as u64).wrapping_mul(0x0000_0100_0000_01b3) ^ (s.hash >> 31);
    if c != s.current {
        s.switches += 1;
    }
    Some(c)
}

/// A scheduling point of the current actor.
pub fn yield_point() {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    let me = ACTOR.with(|a| a.get());
    if me == usize::MAX {
        return;
    }
    let next = {
        let mut s = lock();
        match choose(&mut s) {
            Some(c) => {
                s.current = c;
                c
            }
            None => me,
        }
    };
    if next != me {
        give(next);
        await_turn(me);
    }
}

fn deadlock() -> ! {
    crate::runner::fatal(crate::runner::FATAL_DEADLOCK)
}

/// Called from the interposed futex wait: blocks the actor until woken by another one.
pub fn sim_futex_wait(addr: usize) {
    let me = ACTOR.with(|a| a.get());
    let next = {
        let mut s = lock();
        s.st[me] = St::Blocked(addr);
        s.blocks += 1;
        match choose(&mut s) {
            Some(c) => {
                s.current = c;
                c
            }
            None => deadlock(),
        }
    };
    give(next);
    await_turn(me);
}

/// Called from the interposed futex wake. Returns the number of woken actors.
pub fn sim_futex_wake(addr: usize, n: usize) -> usize {
    let mut woken = 0;
    {
        let mut s = lock();
        for i in 0..s.n {
            if woken < n && s.st[i] == St::Blocked(addr) {
                s.st[i] = St::Runnable;
                woken += 1;
            }
        }
    }
    // a wake is a scheduling point: the woken actor may run before the waker proceeds
    if woken > 0 {
        yield_point();
    }
    woken
}

pub fn is_sim_actor() -> bool {
    ACTIVE.load(Ordering::Relaxed)
        && ACTOR.with(|a| a.get()) != usize::MAX
        && !PASS.with(|p| p.get())
}

/// Runs the given closures as actors under the scheduler and waits for all of them.
pub fn run_actors(decisions: &[u32], actors: Vec<Box<dyn FnOnce() + Send + 'static>>) -> SchedStats {
    let n = actors.len();
    assert!(n <= MAX_ACTORS);
    {
        let mut s = lock();
        s.n = n;
        for i in 0..MAX_ACTORS {
            s.st[i] = if i < n { St::Runnable } else { St::Idle };
            GO[i].store(0, Ordering::SeqCst);
        }
        s.decisions = decisions.to_vec();
        s.pos = 0;
        s.points = 0;
        s.switches = 0;
        s.blocks = 0;
        s.hash = 0xcbf2_9ce4_8422_2325;
        s.current = 0;
    }
    FINISHED.store(0, Ordering::SeqCst);
    let mut handles = Vec::new();
    for (i, f) in actors.into_iter().enumerate() {
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    ACTOR.with(|a| a.set(i));
                    await_turn(i);
                    crate::env::IN_SIM.with(|c| c.set(true));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    crate::env::IN_SIM.with(|c| c.set(false));
                    if r.is_err() {
                        crate::runner::note_panic_payload(r.err());
                    }
                    // hand over for good
                    let next = {
                        let mut s = lock();
                        s.st[i] = St::Done;
                        let c = choose(&mut s);
                        match c {
                            Some(c) => {
                                s.current = c;
                                Some(c)
                            }
                            None => {
                                if (0..s.n).any(|k| matches!(s.st[k], St::Blocked(_))) {
                                    deadlock();
                                }
                                None
                            }
                        }
                    };
                    ACTOR.with(|a| a.set(usize::MAX));
                    match next {
                        Some(c) => give(c),
                        None => {
                            FINISHED.store(1, Ordering::SeqCst);
                            raw_futex_wake(&FINISHED);
                        }
                    }
                })
                .expect("spawn"),
        );
    }
    ACTIVE.store(true, Ordering::SeqCst);
    let first = {
        let mut s = lock();
        let c = choose(&mut s).unwrap_or(0);
        s.current = c;
        c
    };
    give(first);
    raw_futex_wait(&FINISHED, 0);
    ACTIVE.store(false, Ordering::SeqCst);
    for h in handles {
        let _ = h.join();
    }
    let s = lock();
    SchedStats {
        points: s.points,
        switches: s.switches,
        blocks: s.blocks,
        hash: s.hash,
    }
}
