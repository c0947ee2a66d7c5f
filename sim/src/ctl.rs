//! The simulator's control plane: baton scheduler, fault injector, element ledger,
//! violation list.  Everything here is only ever touched by the thread that holds the baton.
use crate::rng::{mix2, Rng};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::thread::Thread;

// ---- callback kinds (fault points and yield points) ----
pub const CB_KCLONE: usize = 0;
pub const CB_VCLONE: usize = 1;
pub const CB_CMP: usize = 2;
pub const CB_CLOSURE: usize = 3;
pub const CB_SRC: usize = 4;
pub const CB_SER: usize = 5;
pub const CB_DE: usize = 6;
pub const CB_VCMP: usize = 7; // value Eq/Ord/Hash/Debug, key Hash/Debug
pub const CB_DROP: usize = 8;
pub const NCB: usize = 9;
pub const ANY: usize = 9; // kill faults count all callbacks that may unwind
pub const LIE: usize = 10; // not a panic: a comparison gives the wrong answer
pub const CB_NAMES: [&str; 11] =
    ["kclone", "vclone", "cmp", "closure", "src", "ser", "de", "vcmp", "drop", "any", "wrong-cmp"];
// further yield kinds
pub const Y_OP: usize = 16;
pub const Y_STEP: usize = 17;
pub const Y_BLOCK: usize = 18;
pub const Y_ARC: usize = 24; // + op 0..=5

pub struct Injected(pub usize);
pub struct Kill;

pub const NOTASK: u32 = u32::MAX;

pub struct Tl {
    pub task: Cell<u32>,
    pub quiet: Cell<u32>,
    pub cut: Cell<bool>,
    pub uid: Cell<u32>,
    pub opy: Cell<u32>,
    pub cb: [Cell<u32>; NCB + 1],
    pub armed_kind: Cell<usize>,
    pub armed_nth: Cell<u32>,
    pub armed_kill: Cell<bool>,
    pub armed_reenter: Cell<bool>,
    pub fired: Cell<bool>,
    pub progress: Cell<u32>,
    pub kc: Cell<u32>,
    pub vc: Cell<u32>,
    pub cmps: Cell<u32>,
    pub tainted: Cell<bool>,
    pub dying: Cell<bool>,
    /// largest single tagged allocation of this task since reset
    pub amax: Cell<usize>,
    /// steps one operation of this task may take
    pub oplim: Cell<u32>,
    /// note which keys get compared (see `noted`)
    pub note: Cell<bool>,
    /// preemption points passed by the operation, the next one to switch at, whether they do not
    /// count just now, and the mean distance between switches in this operation
    pub blocks: Cell<u32>,
    pub pnext: Cell<u32>,
    pub hold: Cell<u32>,
    pub pmean: Cell<u32>,
}
thread_local! {
    static NOTED: std::cell::RefCell<Vec<i32>> = const { std::cell::RefCell::new(Vec::new()) };
}
#[cold]
pub fn note_key(k: i32) {
    let _c = set_cut(false);
    NOTED.with(|n| n.borrow_mut().push(k))
}
/// number of different keys of the collection that `f` compares
pub fn noted<R>(f: impl FnOnce() -> R) -> (R, usize) {
    NOTED.with(|n| n.borrow_mut().clear());
    tl(|t| t.note.set(true));
    let r = f();
    tl(|t| t.note.set(false));
    NOTED.with(|n| {
        let mut n = n.borrow_mut();
        n.sort_unstable();
        n.dedup();
        (r, n.len())
    })
}

#[allow(clippy::declare_interior_mutable_const)]
const Z: Cell<u32> = Cell::new(0);
thread_local! {
    pub static TL: Tl = const { Tl {
        task: Cell::new(NOTASK), quiet: Cell::new(0), cut: Cell::new(false), uid: Cell::new(0),
        opy: Cell::new(0), cb: [Z; NCB + 1], armed_kind: Cell::new(usize::MAX), armed_nth: Cell::new(0),
        armed_kill: Cell::new(false), armed_reenter: Cell::new(false), fired: Cell::new(false), progress: Cell::new(0),
        kc: Cell::new(0), vc: Cell::new(0), cmps: Cell::new(0), tainted: Cell::new(false),
        dying: Cell::new(false), amax: Cell::new(0), oplim: Cell::new(u32::MAX),
        note: Cell::new(false),
        blocks: Cell::new(0), pnext: Cell::new(0), hold: Cell::new(0), pmean: Cell::new(0),
    } };
}

#[inline]
pub fn tl<R>(f: impl FnOnce(&Tl) -> R) -> R {
    TL.with(f)
}

#[inline]
pub fn in_cut() -> bool {
    TL.try_with(|t| t.cut.get()).unwrap_or(false)
}

pub fn note_alloc(n: usize) {
    let _ = TL.try_with(|t| t.amax.set(t.amax.get().max(n)));
}

/// run code under test: allocations are tagged
pub struct CutGuard(bool);
pub fn set_cut(v: bool) -> CutGuard {
    CutGuard(TL.with(|t| t.cut.replace(v)))
}
impl Drop for CutGuard {
    fn drop(&mut self) {
        let _ = TL.try_with(|t| t.cut.set(self.0));
    }
}

/// no yields, no faults, no counting: used by oracles looking at collections
pub struct Quiet;
pub fn quiet() -> Quiet {
    TL.with(|t| t.quiet.set(t.quiet.get() + 1));
    Quiet
}
impl Drop for Quiet {
    fn drop(&mut self) {
        TL.with(|t| t.quiet.set(t.quiet.get() - 1));
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub oracle: &'static str,
    pub props: u32,
    pub msg: String,
    pub task: u32,
    pub uid: u32,
}

pub fn pbits(ps: &[u8]) -> u32 {
    ps.iter().fold(0, |a, p| a | (1 << p))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TState {
    Ready,
    Done,
}

pub struct Sched {
    pub st: Vec<TState>,
    pub thr: Vec<Thread>,
    pub main: Option<Thread>,
    pub rng: Rng,
    pub p_switch: [u32; 4], // probability /65536 for: op start, callback, arc op, step
    pub stall_pct: u64,
    pub stalled_until: Vec<u64>,
    pub replay: Option<HashMap<(u32, u32), u8>>,
    pub rec: Vec<(u32, u32, u8)>,
    pub steps: u64,
    pub step_limit: u64,
    pub ev_hash: u64,
    pub il_hash: u64,
    pub switches: u64,
    pub preempts: u64, // switches inside an operation
    pub stalls: u64,
    pub current: usize,
}

#[derive(Default)]
pub struct Ledger {
    pub state: Vec<u8>, // by instance: 0 unused, 1 live, 2 dropped
    pub live: i64,
    pub created: u64,
}

pub struct Global {
    pub s: Sched,
    pub l: Ledger,
    pub viol: Vec<Violation>,
    pub limit_hit: bool,
    pub fired: [u64; 20], // fault kinds fired, by callback kind; 10 = kill
    pub fault_panics: u64,
    pub heap_elems: bool,
    pub fam: crate::coll::Fam,
    pub nan: bool,
    pub had_panic: bool, // a fault panicked in this run (tags ledger violations for C07)
    pub extra: u32,      // property bits added to ledger violations
    pub drop_panic: bool, // a destructor panicked in this run: leaks are excused
    pub verbose: bool,
    pub check_bit: u32,
    pub abort: bool,
    pub ctx: std::collections::HashSet<u64>,
    pub ops: u64,
    pub cnt: [u64; 17],
    pub rec_file: Option<std::fs::File>,
    pub arc_ops: u64,
    pub yields_by: [u64; 32],
    pub hb: Option<Box<crate::hb::Hb>>,
}

static mut G: Option<Box<Global>> = None;

#[allow(static_mut_refs)]
#[inline]
pub fn g() -> &'static mut Global {
    unsafe { G.as_mut().expect("no simulation") }
}
#[allow(static_mut_refs)]
pub fn has_g() -> bool {
    unsafe { G.is_some() }
}
#[allow(static_mut_refs)]
pub fn install(x: Global) {
    unsafe { G = Some(Box::new(x)) }
}
#[allow(static_mut_refs)]
pub fn take_global() -> Box<Global> {
    unsafe { G.take().unwrap() }
}

/// called at the first violation that counts: reports it and ends the process
pub static mut ON_ABORT: Option<fn(&Global)> = None;

pub fn viol(oracle: &'static str, props: u32, msg: String) {
    let _c = set_cut(false);
    let msg = {
        // the message may have been formatted while allocations were being tagged
        let m = msg.as_str().to_owned();
        drop(msg);
        m
    };
    let (task, uid) = tl(|t| (t.task.get(), t.uid.get()));
    if tl(|t| t.tainted.get()) && !oracle.starts_with("ledger") {
        return; // a handle a failure was injected into: only memory safety is judged
    }
    let gl = g();
    if gl.viol.len() < 64 || (props & gl.check_bit != 0 && gl.viol.len() < 128) {
        if gl.verbose {
            println!("  !! {oracle}: task {task} op {uid}: {msg}");
        }
        gl.viol.push(Violation { oracle, props, msg, task, uid });
    }
    if props & gl.check_bit != 0 {
        gl.abort = true;
        #[allow(static_mut_refs)]
        if let Some(f) = unsafe { ON_ABORT } {
            f(gl)
        }
    }
}

// ------------------------------------------------------------------ scheduler

fn wait_go(flag: &AtomicBool) {
    while !flag.swap(false, Acquire) {
        std::thread::park();
    }
}

// waiting threads only look at their own flag, without the baton
pub const MAXT: usize = 8;
static GO: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
static MAIN_GO: AtomicBool = AtomicBool::new(false);

pub fn park_until_go(task: usize) {
    wait_go(&GO[task]);
}
pub fn park_main() {
    wait_go(&MAIN_GO);
}

fn hand_to(task: usize) {
    let s = &mut g().s;
    s.current = task;
    let t = s.thr[task].clone();
    GO[task].store(true, Release);
    t.unpark();
}

pub fn start_first() {
    let s = &mut g().s;
    let n = s.st.len();
    let first = match &s.replay {
        Some(m) => *m.get(&(u32::MAX - 100, 0)).unwrap_or(&0) as usize % n,
        None => {
            let f = s.rng.below(n as u64) as usize;
            s.rec.push((u32::MAX - 100, 0, f as u8));
            if let Some(rf) = &mut g().rec_file {
                use std::io::Write;
                let _ = writeln!(rf, "{} 0 {f}", u32::MAX - 100);
            }
            f
        }
    };
    hand_to(first);
}

/// `force`: take a stalled task if there is no other
fn choose(s: &mut Sched, me: usize, force: bool) -> Option<usize> {
    let mut c: [usize; 16] = [0; 16];
    let mut n = 0;
    let mut c2: [usize; 16] = [0; 16];
    let mut n2 = 0;
    for i in 0..s.st.len() {
        if s.st[i] == TState::Ready && i != me {
            c2[n2] = i;
            n2 += 1;
            if s.stalled_until[i] <= s.steps {
                c[n] = i;
                n += 1;
            }
        }
    }
    if n > 0 {
        let k = s.rng.below(n as u64) as usize;
        Some(c[k])
    } else if n2 > 0 && force {
        let k = s.rng.below(n2 as u64) as usize;
        Some(c2[k])
    } else {
        None
    }
}

/// called when a task has finished (or died): passes the baton on
pub fn task_done(me: usize) {
    let s = &mut g().s;
    s.st[me] = TState::Done;
    let key = (u32::MAX - me as u32, 0);
    let mut rec_now = None;
    let next = match &s.replay {
        Some(m) => {
            let want = m.get(&key).map(|x| *x as usize);
            match want {
                Some(w) if w < s.st.len() && s.st[w] == TState::Ready => Some(w),
                _ => s.st.iter().position(|x| *x == TState::Ready),
            }
        }
        None => {
            let c = choose(s, me, true);
            if let Some(c) = c {
                s.rec.push((key.0, 0, c as u8));
                rec_now = Some(c);
            }
            c
        }
    };
    s.ev_hash = mix2(s.ev_hash, 0xD0E ^ me as u64);
    if let (Some(f), Some(c)) = (&mut g().rec_file, rec_now) {
        use std::io::Write;
        let _ = writeln!(f, "{} 0 {c}", key.0);
    }
    match next {
        Some(t) => hand_to(t),
        None => {
            let m = s.main.clone().unwrap();
            MAIN_GO.store(true, Release);
            m.unpark();
        }
    }
}

#[inline]
pub fn yield_point(kind: usize) {
    let (task, uid, y) = match TL.try_with(|t| {
        if t.task.get() == NOTASK || t.quiet.get() > 0 {
            return None;
        }
        let y = t.opy.get() + 1;
        t.opy.set(y);
        Some((t.task.get() as usize, t.uid.get(), y))
    }) {
        Ok(Some(x)) => x,
        _ => return,
    };
    let _c = set_cut(false);
    let gl = g();
    gl.yields_by[kind.min(31)] += 1;
    let s = &mut gl.s;
    s.steps += 1;
    s.ev_hash = mix2(s.ev_hash, ((task as u64) << 56) | ((kind as u64) << 48) | ((uid as u64) << 24) ^ y as u64);
    if s.steps > s.step_limit {
        if !gl.limit_hit && !std::thread::panicking() && kind <= CB_CMP {
            gl.limit_hit = true;
            let tainted = tl(|t| t.tainted.get());
            if !tainted {
                viol("progress", u32::MAX, format!("step limit reached: an operation does not finish (yield {y} of this operation)"));
            }
            std::panic::panic_any(Kill);
        }
        return;
    }
    if s.st.len() < 2 {
        return;
    }
    if y == tl(|t| t.oplim.get()) && !tl(|t| t.tainted.get()) {
        viol("progress", u32::MAX, format!("an operation has taken {y} steps of its own without finishing: it depends on another task's progress or does not terminate"));
    }
    let target = match &s.replay {
        Some(m) => match m.get(&(uid, y)) {
            Some(t) => *t as usize,
            None => return,
        },
        None => {
            let cls = match kind {
                Y_OP => 0,
                Y_STEP => 3,
                k if k >= Y_ARC => 2,
                _ => 1,
            };
            if !s.rng.chance(s.p_switch[cls]) {
                return;
            }
            let stall = s.rng.below(100) < s.stall_pct;
            if stall {
                // this task is slow: leave it alone for a while
                // (or until every other task is done or stalled as well)
                let d = if s.rng.below(8) == 0 { u64::MAX / 2 } else { s.rng.logu(4000) };
                s.stalled_until[task] = s.steps + d;
                s.stalls += 1;
            }
            match choose(s, task, stall) {
                Some(t) => {
                    s.rec.push((uid, y, t as u8));
                    t
                }
                None => return,
            }
        }
    };
    switch(task, target, uid, y, kind)
}

/// at a preemption point of the build that has them everywhere
pub fn preempt(p: u32) {
    let _c = set_cut(false);
    let gl = g();
    let (task, uid) = tl(|t| (t.task.get() as usize, t.uid.get()));
    gl.yields_by[Y_BLOCK] += 1;
    let s = &mut gl.s;
    let y = PRE | p;
    s.ev_hash = mix2(s.ev_hash, ((task as u64) << 56) | ((Y_BLOCK as u64) << 48) | ((uid as u64) << 24) ^ p as u64);
    let target = match &s.replay {
        Some(m) => match m.get(&(uid, y)) {
            Some(t) => *t as usize,
            None => return,
        },
        None => match {
            if s.rng.below(2) == 0 {
                // long enough for others to get through whole operations
                s.stalled_until[task] = s.steps + s.rng.logu(40_000);
                s.stalls += 1;
            }
            choose(s, task, false)
        } {
            Some(t) => {
                s.rec.push((uid, y, t as u8));
                t
            }
            None => return,
        },
    };
    switch(task, target, uid, y, Y_BLOCK)
}
/// marks the switches at preemption points in the record
pub const PRE: u32 = 1 << 31;

fn switch(task: usize, target: usize, uid: u32, y: u32, kind: usize) {
    let gl = g();
    let s = &mut gl.s;
    if target == task || target >= s.st.len() || s.st[target] != TState::Ready {
        return;
    }
    s.switches += 1;
    if kind != Y_OP {
        s.preempts += 1;
    }
    s.il_hash = mix2(s.il_hash, ((task as u64) << 40) ^ ((target as u64) << 32) ^ ((kind as u64) << 24) ^ (uid as u64));
    if gl.verbose {
        println!("  -- switch {task} -> {target} at op {uid} yield {} ({})", y & !PRE, yname(kind));
    }
    if let Some(f) = &mut gl.rec_file {
        use std::io::Write;
        let _ = writeln!(f, "{uid} {y} {target}");
    }
    hand_to(target);
    park_until_go(task);
}

pub fn yname(kind: usize) -> &'static str {
    match kind {
        k if k < NCB => CB_NAMES[k],
        Y_OP => "op-start",
        Y_STEP => "step",
        Y_BLOCK => "block",
        k if k >= Y_ARC && k < Y_ARC + 6 => {
            ["arc-new", "arc-clone", "arc-drop", "arc-inspect", "arc-make_mut", "arc-unwrap"][k - Y_ARC]
        }
        _ => "?",
    }
}

#[no_mangle]
pub fn lcc_sim_arc_op(op: u8) {
    let active = TL.try_with(|t| t.task.get() != NOTASK && t.quiet.get() == 0).unwrap_or(false);
    if active {
        let _c = set_cut(false);
        g().arc_ops += 1;
        yield_point(Y_ARC + op as usize);
    }
}

// ------------------------------------------------------------------ callbacks and faults

/// Entry of every user callback: counts it, lets the scheduler run, and fires an armed fault.
#[inline]
pub fn callback(kind: usize) {
    let go = TL.with(|t| {
        if t.task.get() == NOTASK {
            return false;
        }
        match kind {
            CB_KCLONE => t.kc.set(t.kc.get() + 1),
            CB_VCLONE => t.vc.set(t.vc.get() + 1),
            CB_CMP => t.cmps.set(t.cmps.get() + 1),
            _ => (),
        }
        if t.quiet.get() > 0 {
            return false;
        }
        t.cb[kind].set(t.cb[kind].get() + 1);
        true
    });
    if !go {
        return;
    }
    let _c = set_cut(false);
    yield_point(kind);
    if kind != CB_DROP {
        maybe_fire(kind)
    }
}

/// does the comparison in progress give a wrong answer?
#[inline]
pub fn lies() -> bool {
    let l = TL.with(|t| {
        if t.armed_kind.get() != LIE || t.quiet.get() > 0 || t.task.get() == NOTASK {
            return false;
        }
        let (c, n) = (t.cb[CB_CMP].get(), t.armed_nth.get());
        // a burst: the n-th comparison and, for some n, a few after it
        c >= n && c < n + 1 + (n / 2) % 4
    });
    if l {
        let _c = set_cut(false);
        let gl = g();
        if !TL.with(|t| t.fired.replace(true)) {
            gl.had_panic = true;
            gl.fired[13] += 1;
        }
        // from here on only memory safety of this operation is judged
        TL.with(|t| t.tainted.set(true));
        gl.s.ev_hash = mix2(gl.s.ev_hash, 0x11E);
        if gl.verbose {
            println!("  ** a comparison gives a wrong answer");
        }
    }
    l
}

/// called by destructors of elements, after the element is accounted for
#[inline]
pub fn drop_fault() {
    let on = TL.try_with(|t| t.armed_kind.get() == CB_DROP && t.quiet.get() == 0 && t.task.get() != NOTASK).unwrap_or(false);
    if on {
        let _c = set_cut(false);
        if !std::thread::panicking() {
            maybe_fire(CB_DROP)
        }
    }
}

fn maybe_fire(kind: usize) {
    let fire = TL.with(|t| {
        let ak = t.armed_kind.get();
        if ak == usize::MAX || t.fired.get() {
            return None;
        }
        if ak == LIE {
            return None;
        }
        let any = t.cb[ANY].get() + 1;
        t.cb[ANY].set(any);
        let hit = if ak == ANY { any == t.armed_nth.get() } else { ak == kind && t.cb[kind].get() == t.armed_nth.get() };
        if hit {
            Some(t.armed_kill.get())
        } else {
            None
        }
    });
    if let Some(kill) = fire {
        if std::thread::panicking() {
            return;
        }
        if TL.with(|t| t.armed_reenter.get()) {
            let gl = g();
            gl.fired[15] += 1;
            gl.s.ev_hash = mix2(gl.s.ev_hash, 0x2EE ^ kind as u64);
            if gl.verbose {
                println!("  ** callback {} uses other collections", CB_NAMES[kind]);
            }
            let s = TL.with(|t| mix2(t.uid.get() as u64, t.armed_nth.get() as u64));
            return crate::reenter::exercise(gl.fam, s);
        }
        TL.with(|t| t.fired.set(true));
        let gl = g();
        gl.had_panic = true;
        gl.fired[if kill { 10 } else { kind }] += 1;
        if kind == CB_DROP {
            gl.drop_panic = true;
        }
        gl.s.ev_hash = mix2(gl.s.ev_hash, 0xFA17 ^ kind as u64);
        if gl.verbose {
            println!("  ** fault fires in callback {} ({})", CB_NAMES[kind], if kill { "task dies" } else { "panic" });
        }
        if kill {
            std::panic::panic_any(Kill)
        } else {
            std::panic::panic_any(Injected(kind))
        }
    }
}

pub fn arm(kind: usize, nth: u32, kill: bool, reenter: bool) {
    TL.with(|t| {
        t.armed_kind.set(kind);
        t.armed_nth.set(nth);
        t.armed_kill.set(kill);
        t.armed_reenter.set(reenter);
    })
}
pub fn disarm() {
    TL.with(|t| t.armed_kind.set(usize::MAX))
}

pub fn begin_op(uid: u32) {
    TL.with(|t| {
        t.uid.set(uid);
        t.opy.set(0);
        for c in &t.cb {
            c.set(0);
        }
        t.fired.set(false);
        t.progress.set(0);
        t.kc.set(0);
        t.vc.set(0);
        t.cmps.set(0);
        t.armed_kind.set(usize::MAX);
    });
    crate::pre::begin_op();
}

// ------------------------------------------------------------------ ledger

pub fn new_inst() -> u32 {
    if !has_g() {
        return 0;
    }
    let _c = set_cut(false);
    let l = &mut g().l;
    let i = l.state.len() as u32;
    l.state.push(1);
    l.live += 1;
    l.created += 1;
    if g().hb.is_some() {
        crate::hb::created(i)
    }
    i
}

fn ledger_props() -> u32 {
    let gl = g();
    let base = if gl.had_panic { pbits(&[6, 7]) } else { pbits(&[6]) };
    base | gl.extra
}

/// true if the instance is live
#[inline]
pub fn touch(inst: u32, addr: usize, what: &str) -> bool {
    if !has_g() {
        return false;
    }
    let _c = set_cut(false);
    match g().l.state.get(inst as usize) {
        Some(1) => {
            if g().hb.is_some() {
                crate::hb::touch(inst, addr, what)
            }
            true
        }
        Some(2) => {
            viol("ledger-use-after-drop", ledger_props(), format!("{what}: element instance {inst} used after it was dropped"));
            false
        }
        _ => {
            viol("ledger-garbage", ledger_props(), format!("{what}: value {inst:#x} is not an element instance (uninitialised or freed memory)"));
            false
        }
    }
}

/// returns true if this is the first (legal) drop
pub fn drop_inst(inst: u32) -> bool {
    if !has_g() {
        return false;
    }
    let _c = set_cut(false);
    let l = &mut g().l;
    match l.state.get(inst as usize) {
        Some(1) => {
            l.state[inst as usize] = 2;
            l.live -= 1;
            if g().hb.is_some() {
                crate::hb::dropped(inst)
            }
            true
        }
        Some(2) => {
            viol("ledger-double-drop", ledger_props(), format!("element instance {inst} dropped twice"));
            false
        }
        _ => {
            viol("ledger-garbage", ledger_props(), format!("drop of {inst:#x}, which is not an element instance (uninitialised or freed memory)"));
            false
        }
    }
}
