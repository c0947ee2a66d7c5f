//! Which accesses are ordered: vector clocks over the simulated tasks (C18).
//!
//! The interleavings that the baton scheduler produces are sequentially consistent, so memory that
//! is only *accidentally* in order never shows wrong contents.  Here the order that the language
//! promises is computed: what one task did before it gave up a reference happens before what another
//! does once it has found itself the only owner (the Release / Acquire pairs of `Arc`), and before
//! whatever the receiver of a message does after receiving it.  Two accesses to one element, one of
//! them a write or its drop, that are not ordered this way are a data race on real hardware.
use crate::ctl::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub const NC: usize = 6;
const MAIN: usize = NC - 1;
pub type Clock = [u32; NC];

#[derive(Default, Clone, Copy)]
pub struct AddrHasher(u64);
impl Hasher for AddrHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_usize(&mut self, x: usize) {
        self.0 = crate::rng::mix(x as u64)
    }
}

#[derive(Clone, Copy)]
struct El {
    by: u8,  // who created or wrote it last
    at: u32, // when
    read: Clock,
    addr: usize, // where it was last seen
}

struct Rc {
    count: i64,
    rel: Clock, // join of what its former owners did
}

/// The bytes of a value in an `Arc` whose former owners are not ordered before the task that may be
/// about to write there.
struct Look {
    by: usize,
    bytes: Vec<u8>,
}

pub struct Hb {
    on: bool,
    c: [Clock; NC],
    arcs: HashMap<usize, Rc, BuildHasherDefault<AddrHasher>>,
    looks: HashMap<usize, Look, BuildHasherDefault<AddrHasher>>,
    el: Vec<El>,
    pub judged: u64, // writes and drops of elements that another task had accessed
    pub edges: u64,  // acquisitions that ordered something of another task
}

#[inline]
fn me() -> usize {
    let t = tl(|t| t.task.get());
    if t == NOTASK {
        MAIN
    } else {
        t as usize
    }
}

fn join(a: &mut Clock, b: &Clock) -> bool {
    let mut new = false;
    for (x, y) in a.iter_mut().zip(b) {
        new |= *y > *x;
        *x = (*x).max(*y);
    }
    new
}

impl Hb {
    pub fn new(nt: usize) -> Hb {
        assert!(nt < NC);
        let mut c = [[0; NC]; NC];
        for (i, c) in c.iter_mut().enumerate() {
            c[i] = 1;
        }
        Hb { on: true, c, arcs: HashMap::default(), looks: HashMap::default(), el: vec![El { by: 0, at: 0, read: [0; NC], addr: 0 }], judged: 0, edges: 0 }
    }
    fn release(&mut self, t: usize) -> Clock {
        let r = self.c[t];
        self.c[t][t] += 1;
        r
    }
    fn acquire(&mut self, t: usize, c: &Clock) {
        if join(&mut self.c[t], c) {
            self.edges += 1
        }
    }
    /// is the last write of the element ordered before what task t does now?
    fn ordered(&self, inst: u32, t: usize) -> Option<(&'static str, usize)> {
        let e = &self.el[inst as usize];
        let by = e.by as usize;
        (by != t && e.at > self.c[t][by]).then_some(("wrote", by))
    }
    fn write(&mut self, inst: u32, t: usize) -> Option<(&'static str, usize)> {
        let c = self.c[t];
        let r = self.ordered(inst, t);
        let e = &mut self.el[inst as usize];
        let old = std::mem::replace(e, El { by: t as u8, at: c[t], read: [0; NC], addr: e.addr });
        if old.by as usize != t || (0..NC).any(|u| u != t && old.read[u] > 0) {
            self.judged += 1;
        }
        r.or_else(|| (0..NC).find(|u| *u != t && old.read[*u] > c[*u]).map(|u| ("read", u)))
    }
    /// compares the value with what it was when last looked at
    fn relook(&mut self, addr: usize) -> Option<usize> {
        if self.looks.is_empty() {
            return None;
        }
        let l = self.looks.remove(&addr)?;
        (bytes(addr, l.bytes.len()) != l.bytes).then_some(l.by)
    }
    pub fn idle(&self) -> bool {
        self.arcs.is_empty()
    }
    pub fn off(&mut self) {
        self.on = false
    }
}

/// as they are in memory, padding included
fn bytes(addr: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| unsafe { std::ptr::read_volatile((addr + i) as *const u8) }).collect()
}

fn with<R>(f: impl FnOnce(&mut Hb) -> R) -> Option<R> {
    if !has_g() {
        return None;
    }
    let h = g().hb.as_mut()?;
    let _c = set_cut(false);
    Some(f(h))
}

// ---- the harness's own synchronisation

/// what the current task did up to now, for handing on
pub fn release() -> Clock {
    with(|h| h.release(me())).unwrap_or_default()
}
/// the current task has received something from whom `c` was released
pub fn acquire(c: &Clock) {
    with(|h| h.acquire(me(), c));
}
pub fn spawn(t: usize) {
    with(|h| {
        let c = h.release(me());
        h.acquire(t, &c);
    });
}
pub fn join_all() {
    let w = with(|h| {
        let a: Vec<usize> = h.looks.keys().copied().collect();
        a.into_iter().filter_map(|a| h.relook(a)).min()
    });
    raced(w.flatten());
    with(|h| {
        for t in 0..MAIN {
            let c = h.c[t];
            h.acquire(me(), &c);
        }
    });
}

// ---- reference counts

const CREATED: u8 = 16;
const SHARED: u8 = 17;
const RELEASED: u8 = 18;
const OWNED: u8 = 19;
const TAKEN: u8 = 20;

const LOOKED: u8 = 21;

#[no_mangle]
pub fn lcc_sim_arc_at(op: u8, addr: usize, size: usize) {
    let w = with(|h| {
        let t = me();
        if op == CREATED {
            h.arcs.insert(addr, Rc { count: 1, rel: [0; NC] });
            h.looks.remove(&addr);
            return None;
        }
        let rc = h.arcs.get_mut(&addr)?;
        let rel = rc.rel;
        match op {
            SHARED => {
                rc.count += 1;
                None
            }
            RELEASED => {
                rc.count -= 1;
                let c = h.c[t];
                join(&mut rc.rel, &c);
                let (last, rel) = (rc.count <= 0, rc.rel);
                h.c[t][t] += 1;
                if !last {
                    return None;
                }
                let w = h.relook(addr);
                h.arcs.remove(&addr);
                h.acquire(t, &rel);
                w
            }
            OWNED => {
                let w = h.relook(addr);
                h.acquire(t, &rel);
                w
            }
            TAKEN => {
                // its memory is gone
                h.looks.remove(&addr);
                h.arcs.remove(&addr);
                h.acquire(t, &rel);
                None
            }
            LOOKED => {
                let w = h.relook(addr);
                let c = h.c[t];
                if (0..NC).any(|u| rel[u] > c[u]) {
                    h.looks.insert(addr, Look { by: t, bytes: bytes(addr, size) });
                }
                w
            }
            _ => None,
        }
    });
    raced(w.flatten());
}

/// some task wrote into a shared node through a pointer
fn raced(by: Option<usize>) {
    let Some(u) = by else { return };
    if with(|h| h.on) != Some(true) {
        return;
    }
    let _c = set_cut(false);
    viol("data-race", pbits(&[18]), format!("{} looked at a node, did not become its owner by an operation that synchronises with former owners' release of it, and yet the node was written: a data race", name(u)));
}

fn name(t: usize) -> String {
    if t == MAIN {
        "the main thread".into()
    } else {
        format!("task {t}")
    }
}

// ---- elements

#[inline]
fn look(inst: u32, f: impl FnOnce(&mut Hb, usize, bool) -> Option<(&'static str, usize)>, what: &str) {
    if g().hb.is_none() {
        return;
    }
    let quiet = tl(|t| t.quiet.get() > 0);
    let r = with(|h| if h.on && (inst as usize) < h.el.len() { f(h, me(), quiet) } else { None }).flatten();
    if let Some((how, u)) = r {
        let _c = set_cut(false);
        viol("data-race", pbits(&[18]), format!("{} does a {what} of element instance {inst}, which {} {how}, and nothing orders the two: a data race", name(me()), name(u)));
    }
}

pub fn created(inst: u32) {
    with(|h| {
        let t = me();
        debug_assert!(h.el.len() == inst as usize);
        h.el.push(El { by: t as u8, at: h.c[t][t], read: [0; NC], addr: 0 });
    });
}

/// The element was seen at `addr` and read there, or written.  If it was elsewhere the last time, it
/// has been moved meanwhile, by this task or by one whose doings are ordered before: a move is a
/// write, and whoever has read it at the old place must be ordered before it.
pub fn touch(inst: u32, addr: usize, what: &str) {
    look(
        inst,
        |h, t, quiet| {
            if quiet {
                return None;
            }
            let e = &mut h.el[inst as usize];
            let moved = e.addr != addr && e.addr != 0;
            e.addr = addr;
            let r = if what == "write" {
                h.write(inst, t)
            } else if moved {
                // by whom is not known: the writer stays
                let (by, at) = (e.by, e.at);
                let r = h.write(inst, t);
                let e = &mut h.el[inst as usize];
                (e.by, e.at) = (by, at);
                r
            } else {
                h.ordered(inst, t)
            };
            h.el[inst as usize].read[t] = h.c[t][t];
            r
        },
        what,
    )
}

pub fn dropped(inst: u32) {
    look(
        inst,
        |h, t, quiet| {
            let r = h.write(inst, t);
            if quiet {
                None
            } else {
                r
            }
        },
        "drop",
    )
}
