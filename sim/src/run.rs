//! Executes one plan: spawns the tasks, runs every operation on the real collection and on the
//! model, and judges the outcome.
use crate::alloc;
use crate::coll::*;
use crate::ctl::*;
use crate::hb;
use crate::model::{self, Model};
use crate::ops::*;
use crate::oracle::*;
use crate::plan::*;
use crate::rng::{mix, mix2, Rng};
use crate::sersim;
use std::any::Any;
use std::cell::Cell;
use std::collections::{HashMap, HashSet, VecDeque};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

pub const C_CLONE: usize = 0;
pub const C_SEND: usize = 1;
pub const C_LOST: usize = 2;
pub const C_DUP: usize = 3;
pub const C_REORDER: usize = 4;
pub const C_PUBLISH: usize = 5;
pub const C_BOARD: usize = 6;
pub const C_ABANDON: usize = 7;
pub const C_HEAL: usize = 8;
pub const C_SHAREDOP: usize = 9;
pub const C_DEATH: usize = 10;
pub const C_BADHINT: usize = 11;
pub const C_FAULTREAD: usize = 12;
pub const C_ASSIGN: usize = 13;
pub const C_PROMPT: usize = 14;
pub const C_JUDGED: usize = 15;
pub const C_EDGES: usize = 16;
pub const CNT_NAMES: [&str; 17] = [
    "handles cloned", "handles sent", "messages lost", "messages duplicated", "messages reordered", "snapshots published",
    "reads of a shared snapshot", "iterators abandoned", "faulted handles cleared and reused", "operations on shared structure",
    "tasks died", "size hints wrong", "operations after which a fault outcome was judged", "handles cloned onto others", "reachability censuses of all live elements",
    "writes and drops of elements that other tasks had accessed, judged for races", "acquisitions that ordered other tasks' accesses before one's own",
];

pub struct Slot {
    c: Option<Box<dyn Coll>>,
    m: Model,
    shared: bool,  // was ever shared
    tainted: bool, // a failure was injected into an update of it
    tok: Vec<Arc<()>>,
    hb: hb::Clock, // what its sender or publisher did before
}
impl Slot {
    fn new(c: Box<dyn Coll>, m: Model) -> Slot {
        Slot { c: Some(c), m, shared: false, tainted: false, tok: vec![], hb: Default::default() }
    }
    /// no other handle or iterator can share structure with this one
    fn sole(&self) -> bool {
        self.tok.iter().all(|t| Arc::strong_count(t) == 1)
    }
    fn c(&self) -> &dyn Coll {
        &**self.c.as_ref().unwrap()
    }
    fn share_tok(&mut self) -> Vec<Arc<()>> {
        self.tok.retain(|t| Arc::strong_count(t) > 1);
        if self.tok.is_empty() {
            self.tok.push(Arc::new(()));
        }
        self.shared = true;
        self.tok.clone()
    }
    fn join_tok(&mut self, t: Vec<Arc<()>>) {
        self.tok.extend(t);
        self.tok.sort_by_key(|a| Arc::as_ptr(a) as usize);
        self.tok.dedup_by(|a, b| Arc::ptr_eq(a, b));
    }
    fn with(&self, c: Box<dyn Coll>, m: Model, tok: Vec<Arc<()>>) -> Slot {
        Slot { c: Some(c), m, shared: self.shared, tainted: self.tainted, tok, hb: Default::default() }
    }
}

struct Cursor {
    cur: Option<Box<dyn Cur>>,
    left: VecDeque<(i32, u64)>,
    de: bool,
    sole0: bool,
    shared: bool,
    tainted: bool,
    tok: Vec<Arc<()>>,
}

struct World {
    inbox: Vec<Vec<Slot>>,
    board: Vec<Option<Held>>,
}

/// a reference to a published handle; whoever lets the last one go owns the handle
struct Held(Option<Arc<(Slot, Cell<hb::Clock>)>>);
impl Held {
    fn new(mut s: Slot) -> Held {
        s.hb = hb::release();
        let c = Cell::new(s.hb);
        Held(Some(Arc::new((s, c))))
    }
    fn get(&self) -> Held {
        hb::acquire(&self.hb);
        Held(self.0.clone())
    }
    /// lets go; the handle itself if this was the last reference
    fn end(mut self) -> Option<Slot> {
        self.let_go();
        self.0.take().and_then(|a| Arc::try_unwrap(a).ok()).map(|x| x.0)
    }
    fn let_go(&self) {
        if let Some(a) = &self.0 {
            let mut c = hb::release();
            for (x, y) in c.iter_mut().zip(a.1.get()) {
                *x = y.max(*x)
            }
            a.1.set(c);
            if Arc::strong_count(a) == 1 {
                hb::acquire(&c);
            }
        }
    }
}
impl std::ops::Deref for Held {
    type Target = Slot;
    fn deref(&self) -> &Slot {
        &self.0.as_ref().unwrap().0
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        self.let_go()
    }
}
static mut WORLD: Option<Box<World>> = None;
#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

fn mail(to: usize, mut s: Slot) {
    s.hb = hb::release();
    world().inbox[to].push(s);
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _c = set_cut(false);
        let p = i.payload();
        if p.is::<Injected>() || p.is::<Kill>() {
            return;
        }
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|x| *x.borrow_mut() = format!("{m}{l}"));
        if tl(|t| t.task.get()) == NOTASK {
            eprintln!("lccsim: panic outside a task: {m}{l}");
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|x| x.borrow().clone())
}

fn pr(f: Fam) -> u32 {
    pbits(&[f.prop()])
}

/// properties an operation's own result speaks for
fn own_props(f: Fam, oc: Oc, shared: bool, multi: bool) -> u32 {
    use Oc::*;
    let mut p = pr(f);
    if shared {
        p |= pbits(&[1])
    }
    if multi && f != Fam::Stack {
        p |= pbits(&[11])
    }
    p | match oc {
        Iter | Keys | Values | IterMut | ValuesMut | IntoIter | IntoKeys | IntoValues | IntoVec | CurStep | CurOpen | CurDrop => pbits(&[8]),
        Range | RangeMut | RangeBad | RangeMutBad => pbits(&[16]),
        Ser => pbits(&[14]),
        De => pbits(&[10]),
        SerDe => pbits(&[10, 14]),
        Eq | Cmp | PCmp | Hash | Dbg => pbits(&[12]),
        _ => 0,
    }
}
/// properties about a handle that the operation did not touch
fn other_props(f: Fam, multi: bool) -> u32 {
    let mut p = pbits(&[1]) | pr(f);
    if multi && f != Fam::Stack {
        p |= pbits(&[11])
    }
    if g().had_panic {
        p |= pbits(&[7])
    }
    p
}

fn brief(c: &[(i32, u64)]) -> String {
    let n = c.len();
    let s: Vec<_> = c.iter().take(24).map(|(k, t)| format!("{k}:{t:x}")).collect();
    format!("[{}{}] ({n})", s.join(" "), if n > 24 { " .." } else { "" })
}
fn first_diff(m: &Model, c: &[(i32, u64)]) -> String {
    let e = m.contents();
    let at = e.iter().zip(c).position(|(a, b)| a != b).unwrap_or(e.len().min(c.len()));
    format!(
        "expected {} entries, found {}; first difference at position {at}: expected {}, found {}",
        e.len(),
        c.len(),
        brief(&e[at..e.len().min(at + 4)]),
        brief(&c[at..c.len().min(at + 4)])
    )
}

/// look at a handle without disturbing it; reports and resynchronises the model on a mismatch
fn inspect(what: &str, oracle: &'static str, s: &mut Slot, props: u32, structural: u32, probes: &[i32]) -> bool {
    if s.tainted || s.c.is_none() || g().abort {
        return true;
    }
    let _q = quiet();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let c = s.c();
        (c.contents(), c.len(), c.is_empty(), c.check())
    }));
    match r {
        Err(_) => {
            viol(oracle, props, format!("{what}: reading the handle panicked: {}", last_panic()));
            s.tainted = true;
            false
        }
        Ok((es, len, emp, chk)) => {
            let mut ok = true;
            if !s.m.same(&es) {
                viol(oracle, props, format!("{what}: contents differ from the model: {}", first_diff(&s.m, &es)));
                s.m.set_contents(&es);
                ok = false;
            }
            if len != es.len() || emp != es.is_empty() {
                viol("len", props | pbits(&[5]), format!("{what}: len() = {len}, is_empty() = {emp}, but {} entries are there", es.len()));
                s.tainted = true;
                return false;
            }
            if s.c().fam() != Fam::Stack {
                if !es.windows(2).all(|w| w[0].0 < w[1].0) {
                    viol("order", props | pbits(&[5]), format!("{what}: keys are not strictly ascending: {}", brief(&es)));
                    s.tainted = true;
                    return false;
                }
                if let Err(e) = chk {
                    viol("check", structural, format!("{what}: structural check failed: {e}"));
                    ok = false;
                }
                let (n, w) = (es.len(), s.c().n());
                let bound = lookup_bound(n, w);
                for k in probes {
                    let before = tl(|t| t.cmps.get());
                    let (r, nodes) = noted(|| catch_unwind(AssertUnwindSafe(|| s.c().probe(*k))));
                    let used = (tl(|t| t.cmps.get()) - before) as usize;
                    let want = s.m.get_map().get(k).copied();
                    match r {
                        Ok(x) if x == want => (),
                        Ok(x) => {
                            viol(oracle, props | pbits(&[5]), format!("{what}: get({k}) = {x:?}, expected {want:?}"));
                            ok = false
                        }
                        Err(_) => {
                            viol(oracle, props, format!("{what}: get({k}) panicked: {}", last_panic()));
                            s.tainted = true;
                            return false;
                        }
                    }
                    if used > bound {
                        viol("lookup-cost", structural, format!("{what}: get({k}) among {n} entries took {used} comparisons (bound {bound})"));
                        ok = false
                    }
                    let path = path_keys_bound(n, w);
                    if nodes > path {
                        viol("lookup-depth", structural, format!("{what}: get({k}) among {n} entries compared {nodes} different keys (bound {path})"));
                        ok = false
                    }
                }
            }
            ok
        }
    }
}

pub struct Task {
    id: usize,
    slots: Vec<Option<Slot>>,
    curs: Vec<Option<Cursor>>,
    cfg: Cfg,
    fam: Fam,
    faults: HashMap<u32, Fault>,
    nop: u64,
    rot: usize,
    /// handles of an operation in flight: dropped with the task if it dies
    died: bool,
}
unsafe impl Send for Task {}

impl Task {
    fn multi(&self) -> bool {
        self.cfg.ntasks > 1
    }
    fn pick(&self, x: u64, not: usize) -> Option<usize> {
        let n = self.slots.len();
        (0..n).map(|i| (x as usize % n + i) % n).find(|i| *i != not && self.slots[*i].is_some())
    }
    fn free(&self, x: u64) -> usize {
        let n = self.slots.len();
        let s = x as usize % n;
        (0..n).map(|i| (s + i) % n).find(|i| self.slots[*i].is_none()).unwrap_or(s)
    }
    /// put a handle somewhere; what was there is dropped
    fn put(&mut self, at: usize, s: Slot) {
        let old = self.slots[at].replace(s);
        if let Some(o) = old {
            self.drop_slot(o, false)
        }
    }
    fn empty_slot(&self) -> Slot {
        Slot::new(make(self.cfg.kind), Model::new(self.fam))
    }

    fn drop_slot(&mut self, mut s: Slot, measure: bool) {
        let n = s.m.len();
        let measure = measure && s.sole() && !s.tainted && !self.cfg.heap_elems && !g().drop_panic;
        let c = s.c.take();
        let before = alloc::TAGGED_BYTES.load(Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _q = if measure { Some(quiet()) } else { None };
            let _c = set_cut(true);
            drop(c)
        }));
        if measure && r.is_ok() {
            let held = before - alloc::TAGGED_BYTES.load(Relaxed);
            if held > mem_bound(n) as i64 {
                viol("memory", pbits(&[5, 10]), format!("a collection of {n} entries held {held} bytes (bound {})", mem_bound(n)));
            }
        }
        if let Err(e) = r {
            self.died_in(e, "dropping a handle", other_props(self.fam, self.multi()) | pbits(&[15]), s.tainted);
        }
        drop(s);
    }

    /// a panic nobody ordered, or the task's death
    fn died_in(&mut self, e: Box<dyn Any + Send>, what: &str, props: u32, tainted: bool) {
        if e.is::<Kill>() {
            self.died = true;
            g().cnt[C_DEATH] += 1;
            resume_unwind(e);
        }
        if !tainted && !e.is::<Injected>() {
            let p = if g().had_panic { props | pbits(&[7]) } else { props };
            viol("panic", p, format!("{what}: unexpected panic: {}", last_panic()));
        }
    }

    fn clone_slot(&mut self, s: &mut Slot) -> Option<Slot> {
        g().cnt[C_CLONE] += 1;
        let tok = s.share_tok();
        let (k0, v0) = tl(|t| (t.kc.get(), t.vc.get()));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _c = set_cut(true);
            s.c().clone_box()
        }));
        match r {
            Ok(c) => {
                let (k1, v1) = tl(|t| (t.kc.get(), t.vc.get()));
                if !s.tainted && (k1 != k0 || v1 != v0) {
                    viol("clone-cost", pbits(&[9]), format!("cloning a handle of {} entries cloned {} keys and {} values", s.m.len(), k1 - k0, v1 - v0));
                }
                Some(s.with(c, s.m.clone(), tok))
            }
            Err(e) => {
                let t = s.tainted;
                self.died_in(e, "cloning a handle", other_props(self.fam, self.multi()), t);
                None
            }
        }
    }

    /// clone_from onto a handle that is in use
    fn clone_onto(&mut self, s: &mut Slot, j: usize) {
        g().cnt[C_CLONE] += 1;
        g().cnt[C_ASSIGN] += 1;
        let tok = s.share_tok();
        let mut d = self.slots[j].take().unwrap();
        let (k0, v0) = tl(|t| (t.kc.get(), t.vc.get()));
        let tainted = s.tainted || d.tainted;
        let mut dc = d.c.take().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _c = set_cut(true);
            dc.assign_from(s.c())
        }));
        match r {
            Ok(()) => {
                let (k1, v1) = tl(|t| (t.kc.get(), t.vc.get()));
                if !tainted && (k1 != k0 || v1 != v0) {
                    viol("clone-cost", pbits(&[9]), format!("cloning a handle of {} entries onto another cloned {} keys and {} values", s.m.len(), k1 - k0, v1 - v0));
                }
                let mut n = s.with(dc, s.m.clone(), tok);
                inspect("a handle cloned onto another", "isolation", &mut n, other_props(self.fam, self.multi()), pbits(&[5]), &[]);
                self.slots[j] = Some(n);
            }
            Err(e) => self.died_in(e, "cloning a handle onto another", other_props(self.fam, self.multi()), tainted),
        }
    }

    /// Every element still alive is reachable through some handle.  Only looked at when this task
    /// holds every handle there is and no consuming iterator is open.
    fn check_prompt(&mut self) {
        let gl = g();
        if self.cfg.ntasks > 1 || gl.drop_panic || gl.abort || gl.limit_hit {
            return;
        }
        let w = world();
        if self.curs.iter().any(|c| c.is_some()) || w.board.iter().any(|b| b.is_some()) || w.inbox.iter().any(|b| !b.is_empty()) {
            return;
        }
        if self.slots.iter().flatten().any(|s| s.tainted) {
            return;
        }
        if self.slots.iter().flatten().map(|s| s.m.len()).sum::<usize>() > 1500 {
            return;
        }
        let _q = quiet();
        let mut v = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| {
            for s in self.slots.iter().flatten() {
                s.c().insts(&mut v)
            }
        }));
        if r.is_err() {
            return;
        }
        v.sort_unstable();
        v.dedup();
        gl.cnt[C_PROMPT] += 1;
        if gl.l.live != v.len() as i64 {
            let p = (if gl.had_panic { pbits(&[6, 7]) } else { pbits(&[6]) }) | gl.extra;
            viol("late-drop", p, format!("{} elements are alive, but only {} can be reached through the handles that exist", gl.l.live, v.len()));
        }
    }

    fn due(&mut self, n: usize) -> bool {
        n <= 512 || self.nop % (1 + n as u64 / 256) == 0
    }

    fn check_others(&mut self, all: bool) {
        let n = self.slots.len();
        let props = other_props(self.fam, self.multi());
        let cnt = if all { n } else { 1 };
        for _ in 0..cnt {
            self.rot = (self.rot + 1) % n;
            let i = self.rot;
            let len = match &self.slots[i] {
                Some(s) => s.m.len(),
                None => continue,
            };
            if !all && !self.due(len) {
                continue;
            }
            inspect("another handle", "isolation", self.slots[i].as_mut().unwrap(), props, pbits(&[5]), &[]);
        }
    }

    fn exec(&mut self, op: &Op) {
        begin_op(op.uid);
        self.nop += 1;
        yield_point(Y_OP);
        let gl = g();
        if gl.abort || gl.limit_hit {
            return;
        }
        gl.ops += 1;
        use Oc::*;
        match op.oc {
            Clone => {
                if let Some(i) = self.pick(op.a[0], usize::MAX) {
                    let mut s = self.slots[i].take().unwrap();
                    if op.a[3] & 3 == 0 {
                        if let Some(j) = self.pick(op.a[2], i) {
                            self.clone_onto(&mut s, j);
                            self.slots[i] = Some(s);
                            self.check_others(false);
                            return;
                        }
                    }
                    let c = self.clone_slot(&mut s);
                    self.slots[i] = Some(s);
                    if let Some(c) = c {
                        let mut at = self.free(op.a[2]);
                        if at == i {
                            at = (at + 1) % self.slots.len()
                        }
                        if at != i {
                            self.put(at, c)
                        }
                    }
                }
            }
            Drop => {
                if let Some(i) = self.pick(op.a[0], usize::MAX) {
                    let s = self.slots[i].take().unwrap();
                    match self.faults.get(&op.uid).copied() {
                        Some(f) => {
                            arm(f.kind, f.nth, f.kill, f.reenter);
                            self.drop_slot(s, false);
                            disarm();
                            self.check_others(true);
                        }
                        None => self.drop_slot(s, op.a[3] & 1 == 0),
                    }
                }
            }
            OtherTypes => crate::side::run(self.fam, op.a[3], 6 + op.a[4] as usize % 40),
            Build => {
                let at = self.free(op.a[0]);
                let mut s = self.empty_slot();
                if op.a[3] & 1 == 0 {
                    let c = s.c().make_default();
                    s.c = Some(c);
                }
                self.put(at, s);
            }
            Send => self.send(op),
            Recv => {
                let w = world();
                let ib = &mut w.inbox[self.id];
                if !ib.is_empty() {
                    let i = if op.a[3] % 3 == 0 { 0 } else { op.a[2] as usize % ib.len() };
                    if i != 0 {
                        g().cnt[C_REORDER] += 1;
                    }
                    let mut s = ib.remove(i);
                    hb::acquire(&s.hb);
                    let props = other_props(self.fam, self.multi());
                    inspect("a received handle", "isolation", &mut s, props, pbits(&[5]), &[]);
                    let at = self.free(op.a[0]);
                    self.put(at, s);
                }
            }
            Publish => {
                if let Some(i) = self.pick(op.a[0], usize::MAX) {
                    if self.slots[i].as_ref().unwrap().tainted {
                        return;
                    }
                    let mut s = self.slots[i].take().unwrap();
                    if op.a[3] & 1 == 0 {
                        let c = self.clone_slot(&mut s);
                        self.slots[i] = Some(s);
                        match c {
                            Some(c) => s = c,
                            None => return,
                        }
                    }
                    let t = s.share_tok();
                    drop(t);
                    g().cnt[C_PUBLISH] += 1;
                    let b = op.a[2] as usize % world().board.len();
                    let old = world().board[b].replace(Held::new(s));
                    if let Some(s) = old.and_then(Held::end) {
                        self.drop_slot(s, false)
                    }
                }
            }
            BoardRead | BoardClone => self.board(op),
            CurOpen => {
                if let Some(i) = self.pick(op.a[0], usize::MAX) {
                    let mut s = self.slots[i].take().unwrap();
                    let at = op.a[2] as usize % self.curs.len();
                    if let Some(c) = self.curs[at].take() {
                        self.drop_cur(c)
                    }
                    let left: VecDeque<_> = s.m.iter_items().into();
                    let de = !matches!(self.fam, Fam::AvlSet | Fam::Stack);
                    let sole0 = s.sole();
                    let c = s.c.take().unwrap();
                    let tainted = s.tainted;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let _c = set_cut(true);
                        c.into_cur()
                    }));
                    match r {
                        Ok(cur) => self.curs[at] = Some(Cursor { cur: Some(cur), left, de, sole0, shared: s.shared, tainted, tok: std::mem::take(&mut s.tok) }),
                        Err(e) => self.died_in(e, "into_iter", own_props(self.fam, CurOpen, s.shared, self.multi()), tainted),
                    }
                }
            }
            CurStep => self.cur_step(op),
            CurDrop => {
                let n = self.curs.len();
                if let Some(i) = (0..n).map(|i| (op.a[0] as usize % n + i) % n).find(|i| self.curs[*i].is_some()) {
                    let c = self.curs[i].take().unwrap();
                    let f = self.faults.get(&op.uid).copied();
                    if let Some(f) = f {
                        arm(f.kind, f.nth, f.kill, f.reenter);
                    }
                    self.drop_cur(c);
                    if f.is_some() {
                        disarm();
                        self.check_others(true);
                    }
                }
            }
            _ => self.coll_op(op),
        }
        let gl = g();
        if !gl.abort && !gl.limit_hit {
            self.check_others(false);
            if matches!(self.cfg.check, 6 | 7) && self.nop % 3 == 0 {
                self.check_prompt();
            }
        }
    }

    fn send(&mut self, op: &Op) {
        if let Some(i) = self.pick(op.a[0], usize::MAX) {
            let mut s = self.slots[i].take().unwrap();
            let to = op.a[2] as usize % self.cfg.ntasks;
            g().cnt[C_SEND] += 1;
            match op.a[3] % 8 {
                0 => {
                    // lost in transit
                    g().cnt[C_LOST] += 1;
                    self.drop_slot(s, false);
                }
                1 | 2 => {
                    // delivered twice
                    g().cnt[C_DUP] += 1;
                    if let Some(c) = self.clone_slot(&mut s) {
                        mail(to, c);
                    }
                    mail(to, s);
                }
                3 | 4 => {
                    // a copy travels, the original stays
                    let c = self.clone_slot(&mut s);
                    self.slots[i] = Some(s);
                    if let Some(c) = c {
                        mail(to, c);
                    }
                }
                _ => mail(to, s),
            }
        }
    }

    fn board(&mut self, op: &Op) {
        let n = world().board.len();
        let e = match (0..n).map(|i| (op.a[2] as usize % n + i) % n).find_map(|i| world().board[i].as_ref().map(Held::get)) {
            Some(e) => e,
            None => return,
        };
        let multi = self.multi();
        if op.oc == Oc::BoardClone {
            // clone through a shared reference
            g().cnt[C_CLONE] += 1;
            let tok = e.tok.clone(); // not empty: see Publish
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _c = set_cut(true);
                e.c().clone_box()
            }));
            match r {
                Ok(c) => {
                    let mut s = e.with(c, e.m.clone(), tok);
                    s.shared = true;
                    inspect("a clone of a shared snapshot", "isolation", &mut s, other_props(self.fam, multi), pbits(&[5]), &[]);
                    let at = self.free(op.a[0]);
                    self.put(at, s);
                }
                Err(x) => self.died_in(x, "cloning through a shared reference", other_props(self.fam, multi), false),
            }
        } else {
            g().cnt[C_BOARD] += 1;
            let reads: Vec<Oc> = OC_ALL.iter().copied().filter(|o| o.is_read() && supports(self.fam, *o)).collect();
            let mut oc = reads[(op.a[3] >> 44) as usize % reads.len()];
            if self.cfg.nan && oc == Oc::Cmp {
                oc = Oc::PCmp;
            }
            let op2 = Op { uid: op.uid, oc, a: op.a };
            self.read_op(&op2, &e, &e);
        }
        if let Some(s) = e.end() {
            self.drop_slot(s, false)
        }
    }

    /// a read of one collection (possibly together with another) through shared references
    fn read_op(&mut self, op: &Op, s: &Slot, other: &Slot) {
        let mut x = OpX::new(op, self.cfg.krange, self.cfg.nmax);
        model::prep(&s.m, Some(&other.m), &mut x);
        let props = own_props(self.fam, op.oc, s.shared, self.multi());
        x.iter_props = props & pbits(&[8, 16]) | if x.oc >= Oc::Diff { pbits(&[3, 8]) } else { 0 };
        let fault = self.faults.get(&op.uid).copied();
        if let Some(f) = fault {
            arm(f.kind, f.nth, f.kill, f.reenter);
        }
        let tainted = s.tainted || other.tainted;
        tl(|t| t.tainted.set(tainted));
        let mut obs = Obs::default();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _c = set_cut(true);
            s.c().read(&x, Some(other.c()), &mut obs)
        }));
        disarm();
        tl(|t| t.tainted.set(false));
        let lied = fault.map_or(false, |f| f.kind == LIE) && tl(|t| t.fired.get());
        self.note_ctx(op.oc, s, &obs, fault.is_some() && tl(|t| t.fired.get()));
        match r {
            Err(e) => {
                if lied && !e.is::<Kill>() {
                    g().cnt[C_FAULTREAD] += 1;
                } else if !e.is::<Injected>() {
                    let what = format!("{}", op.oc.name());
                    self.died_in(e, &what, props, tainted);
                } else {
                    g().cnt[C_FAULTREAD] += 1;
                }
            }
            Ok(()) if tainted || lied => (),
            Ok(()) => {
                let (kc, vc) = tl(|t| (t.kc.get(), t.vc.get()));
                if (kc, vc) != (0, 0) && !matches!(op.oc, Oc::OpAnd | Oc::OpOr | Oc::OpXor | Oc::OpSub) {
                    let p = if matches!(op.oc, Oc::Eq | Oc::Cmp | Oc::PCmp | Oc::Hash | Oc::Dbg) { pbits(&[9, 12]) } else { pbits(&[9]) };
                    viol("clone-cost", p, format!("{} (a read) cloned {kc} keys and {vc} values", op.oc.name()));
                }
                let mut want = Obs::default();
                let mut none = None;
                let mut m2 = s.m.clone();
                let mut o2 = other.m.clone();
                model::apply(self.fam, &mut m2, Some(&mut o2), &x, &mut none, &mut want);
                if matches!(op.oc, Oc::Hash | Oc::Dbg) {
                    let _q = quiet();
                    let canon = s.c().from_items(&s.m.contents());
                    if op.oc == Oc::Hash {
                        want.opt(canon.hashv());
                    } else {
                        want.p(canon.dbg().map_or(NONE, |d| hash_of(&d) as i64));
                    }
                }
                self.compare(op, &obs, &want, props);
            }
        }
    }

    fn compare(&mut self, op: &Op, obs: &Obs, want: &Obs, props: u32) -> bool {
        if obs == want {
            return true;
        }
        let at = obs.0.iter().zip(&want.0).position(|(a, b)| a != b).unwrap_or(obs.0.len().min(want.0.len()));
        let sh = |o: &Obs| {
            let lo = at.saturating_sub(2);
            let v: Vec<String> = o.0.iter().skip(lo).take(8).map(|x| if *x == NONE { "None".into() } else { x.to_string() }).collect();
            format!("..{}.. ({} values)", v.join(","), o.0.len())
        };
        viol("result", props, format!("{} returned {}, the model says {} (first difference at {at})", op.oc.name(), sh(obs), sh(want)));
        false
    }

    fn note_ctx(&self, oc: Oc, s: &Slot, obs: &Obs, fired: bool) {
        let gl = g();
        let sole = s.sole();
        if !sole {
            gl.cnt[C_SHAREDOP] += 1;
        }
        let b = 64 - (s.m.len() as u64).leading_zeros() as u64;
        gl.ctx.insert((self.cfg.kind as u64) << 32 | (oc as u64) << 16 | b << 8 | (sole as u64) | (fired as u64) << 1 | (s.tainted as u64) << 2 | (self.multi() as u64) << 3);
        let mut h = mix2(oc as u64, obs.0.len() as u64);
        for x in &obs.0 {
            h = mix2(h, *x as u64)
        }
        gl.s.ev_hash = mix2(gl.s.ev_hash, h);
        if gl.verbose {
            let v: Vec<String> = obs.0.iter().take(16).map(|x| if *x == NONE { "None".into() } else { x.to_string() }).collect();
            println!(
                "task {} op {} {} on {} entries{}{} -> {}{}",
                self.id,
                tl(|t| t.uid.get()),
                oc.name(),
                s.m.len(),
                if sole { "" } else { " (shared)" },
                if s.tainted { " (faulted handle)" } else { "" },
                v.join(","),
                if obs.0.len() > 16 { ",.." } else { "" }
            );
        }
    }

    fn coll_op(&mut self, op: &Op) {
        if !supports(self.fam, op.oc) {
            return;
        }
        let i = match self.pick(op.a[0], usize::MAX) {
            Some(i) => i,
            None => {
                let s = self.empty_slot();
                let at = op.a[0] as usize % self.slots.len();
                self.slots[at] = Some(s);
                at
            }
        };
        let mut s = self.slots[i].take().unwrap();
        // the second operand: another handle, or a fresh clone of this one
        let mut other: Option<Slot> = None;
        let mut oi = None;
        if op.oc.takes_other() {
            let j = if op.a[3] >> 50 & 7 == 0 { None } else { self.pick(op.a[2], i) };
            match j {
                Some(j) => {
                    other = self.slots[j].take();
                    oi = Some(j);
                }
                None => {
                    other = self.clone_slot(&mut s);
                    if other.is_none() {
                        self.slots[i] = Some(s);
                        return;
                    }
                }
            }
        }
        if op.oc.is_read() {
            match &other {
                Some(o) => self.read_op(op, &s, o),
                None => self.read_op(op, &s, &s),
            }
            let fired = tl(|t| t.fired.get());
            let n = s.m.len();
            if (fired || self.nop % 4 == 0) && self.due(n) {
                // reads change nothing, failing ones neither
                let p = if fired { pbits(&[7]) } else { own_props(self.fam, op.oc, s.shared, self.multi()) };
                inspect("after a read", "read-only", &mut s, p, pbits(&[5]), &[]);
                if let Some(o) = other.as_mut() {
                    inspect("after a read (second operand)", "read-only", o, p, pbits(&[5]), &[]);
                }
            }
            self.slots[i] = Some(s);
            match (oi, other) {
                (Some(j), o) => self.slots[j] = o,
                (None, Some(o)) => self.drop_slot(o, false),
                _ => (),
            }
            if fired {
                self.check_others(true);
            }
            return;
        }
        self.mutate(op, i, s, oi, other)
    }

    fn mutate(&mut self, op: &Op, i: usize, mut s: Slot, oi: Option<usize>, mut other: Option<Slot>) {
        use Oc::*;
        let f = self.fam;
        let oc = op.oc;
        let multi = self.multi();
        let mut x = OpX::new(op, self.cfg.krange, self.cfg.nmax);
        model::prep(&s.m, other.as_ref().map(|o| &o.m), &mut x);
        let shared = s.shared || other.as_ref().map_or(false, |o| o.shared);
        let props = own_props(f, oc, shared, multi);
        x.iter_props = props & pbits(&[8, 16]);
        let fault = self.faults.get(&op.uid).copied();
        let sole = s.sole() && other.as_ref().map_or(true, |o| o.sole());
        let pre = fault.map(|_| (s.m.clone(), other.as_ref().map(|o| o.m.clone())));
        let tainted = s.tainted || other.as_ref().map_or(false, |o| o.tainted);
        if let Some(f) = fault {
            arm(f.kind, f.nth, f.kill, f.reenter);
        }
        tl(|t| t.tainted.set(tainted));
        let mut obs = Obs::default();
        let mut out: Option<Box<dyn Coll>> = None;
        let r = if oc.is_consume() {
            let c = s.c.take().unwrap();
            catch_unwind(AssertUnwindSafe(|| {
                let _c = set_cut(true);
                c.consume(&x, &mut obs)
            }))
        } else {
            let c = s.c.as_mut().unwrap();
            let o: Option<&mut dyn Coll> = match other.as_mut() {
                Some(o) => Some(&mut **o.c.as_mut().unwrap()),
                None => None,
            };
            catch_unwind(AssertUnwindSafe(|| {
                let _c = set_cut(true);
                c.update(&x, o, &mut out, &mut obs)
            }))
        };
        disarm();
        tl(|t| t.tainted.set(false));
        let fired = tl(|t| t.fired.get());
        let lied = fired && fault.map_or(false, |f| f.kind == LIE);
        if x.steps() <= x.expn && x.expn > 0 && matches!(oc, IterMut | ValuesMut | RangeMut | IntoIter | IntoKeys | IntoValues) {
            g().cnt[C_ABANDON] += 1;
        }
        self.note_ctx(oc, &s, &obs, fired);
        let gone = oc.is_consume();
        let mut healed = 0;
        let mut out_slot: Option<Slot> = None;
        let mut reinspect = self.due(s.m.len().max(x.n / 4)) || fired;
        match r {
            Err(e) if e.is::<Injected>() || lied && !e.is::<Kill>() => {
                if !gone && !tainted {
                    let (pm, po) = pre.unwrap();
                    self.after_fault(&x, &mut s, other.as_mut(), pm, po, fault.unwrap());
                } else if tainted {
                    s.tainted = true;
                    if let (Some(o), true) = (other.as_mut(), oc.takes_other_mut()) {
                        o.tainted = true;
                    }
                }
            }
            Err(e) => {
                let what = format!("{} on {} entries", oc.name(), x.len);
                // handles in flight die with the task
                self.died_in(e, &what, props | pbits(&[7]) * (g().had_panic as u32), tainted);
                s.tainted = true;
                if let Some(o) = other.as_mut() {
                    if oc.takes_other_mut() {
                        o.tainted = true
                    }
                }
            }
            Ok(()) if lied && !tainted && !gone => {
                let (pm, po) = pre.unwrap();
                self.after_fault(&x, &mut s, other.as_mut(), pm, po, fault.unwrap());
                if let Some(c) = out.take() {
                    let t = s.share_tok();
                    let mut n = s.with(c, Model::new(f), t);
                    n.tainted = true;
                    out_slot = Some(n);
                }
            }
            Ok(()) if tainted || lied => {
                s.tainted = true;
                if oc == Clear {
                    g().cnt[C_HEAL] += 1;
                    s.tainted = false;
                    s.m = Model::new(f);
                    healed = pbits(&[7]);
                }
                if oc.takes_other_mut() {
                    if let Some(o) = other.as_mut() {
                        o.tainted = true;
                    }
                }
                if let Some(c) = out.take() {
                    let t = s.share_tok();
                    let mut n = s.with(c, Model::new(f), t);
                    n.tainted = true;
                    out_slot = Some(n);
                }
                reinspect = true;
            }
            Ok(()) => {
                let (kc, vc) = tl(|t| (t.kc.get(), t.vc.get()));
                let olen = other.as_ref().map_or(0, |o| o.m.len());
                self.cost_after(&x, &mut s, olen, sole, kc, vc);
                let mut want = Obs::default();
                let mut mout = None;
                let shared_src = s.shared;
                model::apply(f, &mut s.m, other.as_mut().map(|o| &mut o.m), &x, &mut mout, &mut want);
                self.compare(op, &obs, &want, props);
                if matches!(oc, De) {
                    if want.0[0] == 0 {
                        g().extra |= pbits(&[10]);
                    }
                    if x.pat >> 24 & 15 >= 6 {
                        g().cnt[C_BADHINT] += 1;
                    }
                }
                if oc.takes_other_mut() {
                    // operands may end up sharing
                    let o = other.as_mut().unwrap();
                    let t = o.share_tok();
                    s.join_tok(t);
                    s.shared = s.shared || o.shared;
                }
                match (out.take(), mout) {
                    (Some(c), Some(m)) => {
                        let fresh = matches!(oc, FromIter | FromArr | De | SerDe);
                        let t = if fresh { vec![] } else { s.share_tok() };
                        let mut n = s.with(c, m, t);
                        n.shared = !fresh && shared_src;
                        if !fresh {
                            s.shared = shared_src;
                        }
                        out_slot = Some(n);
                    }
                    (None, None) => (),
                    (a, b) => {
                        if a.is_some() != b.is_some() && obs == want {
                            viol("result", props, format!("{}: produced a collection: {}, expected: {}", oc.name(), a.is_some(), b.is_some()));
                        }
                    }
                }
            }
        }
        let mut structural = pbits(&[5]);
        if matches!(oc, De | SerDe) {
            structural |= pbits(&[10]);
        }
        if !gone {
            if reinspect {
                let (a, b) = (x.key, (mix(x.pat) % x.krange as u64) as i32);
                let fp = if fired { pbits(&[7, 13]) } else { healed };
                inspect("the handle operated on", "contents", &mut s, props | fp, structural, &[a, b]);
            }
            self.slots[i] = Some(s);
        } else {
            drop(s);
        }
        if let Some(mut o) = other {
            if reinspect && oc.takes_other_mut() {
                inspect("the second operand", "contents", &mut o, props, structural, &[x.key]);
            }
            match oi {
                Some(j) => self.slots[j] = Some(o),
                None => self.drop_slot(o, false),
            }
        }
        if let Some(mut n) = out_slot {
            inspect("the collection produced", "contents", &mut n, props, structural, &[x.key, (mix(x.pat) % x.krange as u64) as i32]);
            let mut at = self.free(op.a[2]);
            if at == i {
                at = (at + 1) % self.slots.len();
            }
            self.put(at, n);
        }
        if fired {
            self.check_others(true);
        }
    }

    /// clones made by an update, against what laziness allows
    fn cost_after(&mut self, x: &OpX, s: &mut Slot, olen: usize, sole: bool, kc: u32, vc: u32) {
        use Oc::*;
        let f = self.fam;
        let p9 = pbits(&[9]);
        let (w, n) = (s.c.as_ref().map_or(0, |c| c.n()), x.len);
        let oc = x.oc;
        if oc.is_update1() && f != Fam::Stack {
            let entry = matches!(oc, EntryOrInsert | EntryOrInsertWith | EntryOrInsertWithKey | EntryOrDefault | EntryAndModify | EntryModOrInsert | EntryKey | FirstEntryMod | LastEntryMod);
            if sole {
                let lim = if entry { 2 } else { 0 };
                if kc > lim || vc > 0 {
                    viol("clone-cost", p9, format!("{} on {n} unshared entries cloned {kc} keys and {vc} values", oc.name()));
                }
            } else {
                let b = path_bound(n, w);
                if kc as usize > b || vc as usize > b {
                    viol("clone-cost", p9, format!("{} on {n} shared entries cloned {kc} keys and {vc} values (bound {b} each)", oc.name()));
                }
                // the path is ours now: touching the same key again is free
                let again = match oc {
                    GetMut if f.is_map() => true,
                    Insert => true,
                    _ => false,
                };
                if again {
                    let _q = quiet();
                    let mut c2 = OpX { oc: if f.is_map() { GetMut } else { Insert }, ..*x };
                    c2.iter_props = 0;
                    let (k0, v0) = tl(|t| (t.kc.get(), t.vc.get()));
                    let mut o = Obs::default();
                    let mut none = None;
                    let r = catch_unwind(AssertUnwindSafe(|| s.c.as_mut().unwrap().update(&c2, None, &mut none, &mut o)));
                    let (k1, v1) = tl(|t| (t.kc.get(), t.vc.get()));
                    if r.is_ok() && (k1 != k0 || v1 != v0) {
                        viol("clone-cost", p9, format!("updating the same key again after {} on {n} shared entries cloned {} keys and {} values", oc.name(), k1 - k0, v1 - v0));
                    }
                }
            }
        }
        if sole && matches!(oc, IterMut | ValuesMut | RangeMut | ForEachMut | IntoIter | IntoKeys | IntoValues | IntoVec) && (kc, vc) != (0, 0) {
            viol("clone-cost", p9, format!("{} on {n} unshared entries cloned {kc} keys and {vc} values", oc.name()));
        }
        if f != Fam::Stack {
            // what is ours alone is moved; what is shared is copied at most once
            let lim = match oc {
                Clear | FromIter | FromArr | De => 0,
                Extend | SplitOff if sole => 0,
                ExtendRef if sole => x.n, // the items themselves
                Append if sole => 0,
                Retain if sole && !(f == Fam::Avl && f.is_map()) => 0,
                SplitOff if w == 0 => path_bound(n, w),
                Extend | SplitOff | Retain => n,
                ExtendRef => n + x.n,
                Append => n + olen,
                NewUnion | NewInter | NewDiff | NewSym => 2 * (n + olen) + 8,
                NewJoin => path_bound(n + olen, w),
                _ => usize::MAX,
            };
            if kc as usize > lim || vc as usize > lim {
                viol("clone-cost", p9, format!("{} on {n} {} entries (and {olen}) cloned {kc} keys and {vc} values, {lim} would do", oc.name(), if sole { "unshared" } else { "shared" }));
            }
        }
        if f == Fam::Stack {
            let lim = match oc {
                Push | Extend | FromIter | Clear => 0,
                Pop | TopMut => !sole as u32,
                StkRemove if sole || n == 0 => 0,
                StkSplit if sole => 0,
                // what lies above the point, and the element handed out
                StkRemove => (n - x.pos()) as u32,
                StkSplit => (n - x.pos1()) as u32,
                _ => u32::MAX,
            };
            if vc > lim {
                viol("clone-cost", p9, format!("{} on a {} stack cloned {vc} values", oc.name(), if sole { "unshared" } else { "shared" }));
            }
        }
    }

    /// an injected panic came out of an update of `s`
    fn after_fault(&mut self, x: &OpX, s: &mut Slot, other: Option<&mut Slot>, pm: Model, po: Option<Model>, fl: Fault) {
        use Oc::*;
        let f = self.fam;
        g().cnt[C_FAULTREAD] += 1;
        let progress = tl(|t| t.progress.get()) as usize;
        let oc = x.oc;
        let p7 = pbits(&[7]);
        let p13 = pbits(&[13]);
        let lambda = fl.kind == CB_CLOSURE;
        // updates after which the contents are known exactly: leave the expectation in s.m,
        // the caller inspects
        match oc {
            FromIter | FromArr | De | SerDe => return,
            Extend | ExtendRef if fl.kind == CB_SRC => {
                let _q = quiet();
                let r = catch_unwind(AssertUnwindSafe(|| s.c().contents()));
                match r {
                    Err(_) => {
                        viol("fault-contents", p13 | p7, format!("{}: reading the collection after the source panicked: {}", oc.name(), last_panic()));
                        s.tainted = true;
                    }
                    Ok(es) => {
                        // every item handed out has been put in, no more and no less
                        let mut m = pm.clone();
                        for i in 0..progress.min(x.n) {
                            let (k, t) = x.item(i);
                            m.add(f.is_set(), k, t);
                        }
                        let ok = m.same(&es);
                        if !ok {
                            viol("fault-contents", p13, format!("{}: source panicked after {progress} items; the contents are not the old ones plus those items: {}", oc.name(), first_diff(&m, &es)));
                            m.set_contents(&es);
                        }
                        s.m = m;
                    }
                }
                return;
            }
            _ if lambda && oc >= EntryOrInsert && oc <= EntryKey => {
                s.m = pm;
                if progress > 0 {
                    // and_modify's closure had written already
                    let m = s.m.map();
                    let k = match oc {
                        FirstEntryMod => *m.keys().next().unwrap(),
                        LastEntryMod => *m.keys().next_back().unwrap(),
                        _ => x.key,
                    };
                    m.insert(k, x.tok);
                }
                return;
            }
            ForEachMut | IterMut | ValuesMut | RangeMut if lambda => {
                let mut o = Obs::default();
                let mut none = None;
                model::apply_lim(f, &mut s.m, None, x, &mut none, &mut o, progress);
                return;
            }
            _ => (),
        }
        // a tree update was interrupted: entries may be lost, nothing may be invented
        let n = if matches!(oc, Extend | ExtendRef) { x.n } else { 0 };
        let mut own: HashMap<i32, HashSet<u64>> = HashMap::new();
        for j in 0..n {
            let (k, t) = x.item(j);
            own.entry(k).or_default().insert(t);
        }
        let set = f.is_set();
        let legal = |k: i32, t: u64| -> bool {
            let inm = |m: &Model| match m {
                Model::Map(m) => m.get(&k).map_or(false, |v| *v == t || t >> 24 == x.tok >> 24),
                Model::Stk(v) => v.contains(&t) || t >> 24 == x.tok >> 24,
            };
            inm(&pm)
                || po.as_ref().map_or(false, inm)
                || own.get(&k).map_or(false, |ts| set || ts.contains(&t))
                || (oc.is_update1() || oc == NewJoin) && k == x.key && (set || t >> 24 == x.tok >> 24 || t == crate::elem::DEFAULT_TOK)
        };
        let mut subjects: Vec<&mut Slot> = vec![s];
        if let (Some(o), true) = (other, oc.takes_other_mut()) {
            subjects.push(o);
        }
        for s in subjects {
            s.tainted = true;
            let _q = quiet();
            let lim = 4 * (pm.len() + po.as_ref().map_or(0, |m| m.len()) + n + 4);
            if let Ok(es) = catch_unwind(AssertUnwindSafe(|| s.c().contents())) {
                if es.len() > lim {
                    viol("fault-invented", p7, format!("{}: {} entries after a panic, there were {}", oc.name(), es.len(), pm.len()));
                }
                for (k, t) in es {
                    if !legal(k, t) {
                        viol("fault-invented", p7, format!("{}: after a panic in {}, the collection yields {k}:{t:x}, which was never put in", oc.name(), CB_NAMES[fl.kind]));
                        break;
                    }
                }
            }
            drop(_q);
            if mix(x.pat ^ 0x77) & 1 == 0 {
                // clearing makes it usable again
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let _c = set_cut(true);
                    s.c.as_mut().unwrap().clear_()
                }));
                match r {
                    Err(e) if e.is::<Kill>() => resume_unwind(e),
                    Err(_) => viol("fault-clear", p7, format!("clear() of a handle faulted in {} panicked: {}", oc.name(), last_panic())),
                    Ok(()) => {
                        g().cnt[C_HEAL] += 1;
                        s.m = Model::new(f);
                        s.tainted = false;
                        inspect("a faulted handle after clear()", "fault-clear", s, p7, p7 | pbits(&[5]), &[x.key]);
                    }
                }
            }
        }
    }

    fn cur_step(&mut self, op: &Op) {
        let n = self.curs.len();
        let i = match (0..n).map(|i| (op.a[0] as usize % n + i) % n).find(|i| self.curs[*i].is_some()) {
            Some(i) => i,
            None => return,
        };
        let multi = self.multi();
        let mut c = self.curs[i].take().unwrap();
        let props = own_props(self.fam, Oc::CurStep, c.shared, multi);
        let fault = self.faults.get(&op.uid).copied();
        if let Some(f) = fault {
            arm(f.kind, f.nth, f.kill, f.reenter);
        }
        let sole = c.sole0 && c.tok.iter().all(|t| Arc::strong_count(t) == 1);
        tl(|t| t.tainted.set(c.tainted));
        let steps = 1 + op.a[4] % 5;
        let mut res = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| {
            for j in 0..steps {
                let back = c.de && op.a[3] >> j & 1 == 1;
                if !c.tainted {
                    let _q = quiet();
                    let (len, h) = c.cur.as_ref().unwrap().len();
                    let rem = c.left.len();
                    if len.map_or(false, |l| l != rem) {
                        viol("iter-len", pbits(&[8]), format!("consuming iterator: len() = {len:?}, but {rem} items remain"));
                    }
                    if h.0 > rem || h.1.map_or(false, |x| x < rem) || (len.is_some() && h != (rem, Some(rem))) {
                        viol("iter-hint", pbits(&[8]), format!("consuming iterator: size_hint() = {h:?}, but {rem} items remain"));
                    }
                }
                let x = {
                    let _c = set_cut(true);
                    c.cur.as_mut().unwrap().step(back)
                };
                let want = if back { c.left.pop_back() } else { c.left.pop_front() };
                res.push((x, want));
                yield_point(Y_STEP);
            }
        }));
        disarm();
        tl(|t| t.tainted.set(false));
        let gl = g();
        for (a, _) in &res {
            gl.s.ev_hash = mix2(gl.s.ev_hash, a.map_or(1, |a| a.1 ^ (a.0 as u64) << 40));
        }
        if gl.verbose {
            println!("task {} op {} CurStep -> {:?}", self.id, op.uid, res.iter().map(|r| r.0).collect::<Vec<_>>());
        }
        match r {
            Ok(()) => {
                if !c.tainted {
                    if let Some((a, b)) = res.iter().find(|(a, b)| a != b) {
                        viol("result", props, format!("a step of a consuming iterator yielded {a:?}, the model says {b:?}"));
                        c.tainted = true;
                    }
                    let (kc, vc) = tl(|t| (t.kc.get(), t.vc.get()));
                    if sole && (kc, vc) != (0, 0) {
                        viol("clone-cost", pbits(&[9]), format!("stepping a consuming iterator over unshared entries cloned {kc} keys and {vc} values"));
                    }
                }
                self.curs[i] = Some(c);
            }
            Err(e) => {
                let t = c.tainted;
                c.tainted = true;
                if e.is::<Injected>() {
                    // the iterator is abandoned after the failure, or limps on
                    g().cnt[C_FAULTREAD] += 1;
                    if op.a[3] >> 20 & 1 == 0 {
                        self.drop_cur(c)
                    } else {
                        self.curs[i] = Some(c)
                    }
                    self.check_others(true);
                } else {
                    self.died_in(e, "stepping a consuming iterator", props, t);
                    self.curs[i] = Some(c);
                }
            }
        }
    }

    fn drop_cur(&mut self, mut c: Cursor) {
        if !c.left.is_empty() {
            g().cnt[C_ABANDON] += 1;
        }
        let cur = c.cur.take();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _c = set_cut(true);
            drop(cur)
        }));
        if let Err(e) = r {
            self.died_in(e, "dropping a consuming iterator", own_props(self.fam, Oc::CurDrop, c.shared, self.cfg.ntasks > 1) | pbits(&[15]), c.tainted)
        }
        drop(c);
    }

    fn finish(&mut self) {
        begin_op(2_000_000 + self.id as u32);
        let gl = g();
        if gl.abort || gl.limit_hit {
            return;
        }
        self.check_others(true);
        let mut order: Vec<usize> = (0..self.slots.len() + self.curs.len()).collect();
        let mut r = Rng::new(mix2(self.cfg.sched_seed, 77 + self.id as u64));
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i as u64 + 1) as usize);
        }
        for o in order {
            if g().abort || g().limit_hit {
                return;
            }
            if o < self.slots.len() {
                if let Some(mut s) = self.slots[o].take() {
                    let n = s.m.len();
                    if n > 0 && self.fam != Fam::Stack {
                        // sampled lookups
                        let mut ks: Vec<i32> = (0..4).map(|_| r.below(self.cfg.krange as u64) as i32).collect();
                        if self.cfg.check == 5 && n <= 400 {
                            ks.extend(s.m.contents().iter().map(|e| e.0));
                        }
                        inspect("a handle at the end", "contents", &mut s, other_props(self.fam, self.cfg.ntasks > 1), pbits(&[5]), &ks);
                    }
                    let m = r.below(2) == 0;
                    self.drop_slot(s, m);
                }
            } else if let Some(c) = self.curs[o - self.slots.len()].take() {
                self.drop_cur(c);
            }
        }
    }
}

/// where to record switches as they happen (a run that crashes cannot report them)
pub static REC_PATH: std::sync::OnceLock<String> = std::sync::OnceLock::new();

pub struct Outcome {
    pub gl: Box<Global>,
    pub rec: Vec<(u32, u32, u8)>,
    pub leaked_bytes: i64,
}

pub fn run_plan(plan: &Plan, verbose: bool) -> Outcome {
    let cfg = plan.cfg.clone();
    let nt = cfg.ntasks;
    assert!(nt <= MAXT);
    let fam = fam_of(cfg.kind);
    let check_bit = if cfg.check == 0 { u32::MAX } else { 1 << cfg.check };
    install(Global {
        s: Sched {
            st: vec![TState::Ready; nt],
            thr: vec![],
            main: Some(std::thread::current()),
            rng: Rng::new(cfg.sched_seed),
            p_switch: cfg.p_switch,
            stall_pct: cfg.stall_pct,
            stalled_until: vec![0; nt],
            replay: plan.switches.as_ref().map(|v| v.iter().map(|(a, b, c)| ((*a, *b), *c)).collect()),
            rec: vec![],
            steps: 0,
            step_limit: cfg.step_limit,
            ev_hash: 1,
            il_hash: 1,
            switches: 0,
            preempts: 0,
            stalls: 0,
            current: 0,
        },
        l: Ledger { state: vec![0], live: 0, created: 0 },
        viol: vec![],
        limit_hit: false,
        fired: [0; 20],
        fault_panics: 0,
        heap_elems: cfg.heap_elems,
        fam,
        nan: cfg.nan,
        had_panic: false,
        extra: 0,
        drop_panic: false,
        verbose,
        check_bit,
        abort: false,
        ctx: HashSet::new(),
        ops: 0,
        cnt: [0; 17],
        rec_file: REC_PATH.get().and_then(|p| std::fs::File::create(p).ok()),
        arc_ops: 0,
        yields_by: [0; 32],
        hb: (cfg.check == 18).then(|| Box::new(hb::Hb::new(nt))),
    });
    crate::pre::start(&cfg, plan.switches.is_some());
    alloc::QUARANTINE.store(cfg.quarantine, Relaxed);
    alloc::TAGGED_BYTES.store(0, Relaxed);
    alloc::TAGGED_BLOCKS.store(0, Relaxed);
    alloc::BAD_FREE.store(0, Relaxed);
    unsafe { WORLD = Some(Box::new(World { inbox: (0..nt).map(|_| vec![]).collect(), board: (0..3).map(|_| None).collect() })) }

    if cfg.check == 18 {
        // without the hooks, or with other synchronisation in the crate, nothing is known about the order
        let x = make(cfg.kind).from_items(&[(1, 1), (2, 2)]);
        let h = g().hb.as_mut().unwrap();
        if h.idle() || std::env::var_os("LCCSIM_ORDER").is_some_and(|s| s == "off") {
            h.off()
        }
        drop(x);
    }
    // the structure all tasks start out sharing
    let mut base = {
        let x = OpX::new(&Op { uid: 0, oc: Oc::Build, a: [0, cfg.init_pat >> 8, 0, cfg.init_pat, 0] }, cfg.krange, 0);
        let items: Vec<_> = (0..cfg.init).map(|i| x.item(i)).collect();
        let mut m = Model::new(fam);
        for (k, t) in &items {
            m.add(fam.is_set(), *k, *t)
        }
        let c = {
            let proto = make(cfg.kind);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _c = set_cut(true);
                proto.from_items(&items)
            }));
            match r {
                Ok(c) => c,
                Err(_) => {
                    viol("panic", u32::MAX, format!("building the initial collection panicked: {}", last_panic()));
                    make(cfg.kind)
                }
            }
        };
        Slot::new(c, m)
    };
    inspect("the initial collection", "contents", &mut base, pr(fam), pbits(&[5]), &[0, cfg.krange / 2]);
    let faults: HashMap<u32, Fault> = plan.faults.iter().map(|(k, v)| (*k, *v)).collect();
    let mut starts = vec![];
    for _ in 1..nt {
        let tok = base.share_tok();
        let c = {
            let _c = set_cut(true);
            base.c().clone_box()
        };
        let m = base.m.clone();
        starts.push(base.with(c, m, tok));
    }
    starts.push(base);

    // far more than any operation on collections of this size needs
    let oplim = if fam == Fam::Stack { u32::MAX } else { (50_000 + 400 * (cfg.krange as u64 + cfg.nmax as u64)).min(1 << 31) as u32 };
    if !g().abort {
        let mut hs = vec![];
        for (id, s0) in starts.into_iter().enumerate() {
            let mut slots: Vec<Option<Slot>> = (0..cfg.nslots.max(2)).map(|_| None).collect();
            slots[0] = Some(s0);
            let task = Task {
                id,
                slots,
                curs: vec![None, None],
                cfg: cfg.clone(),
                fam,
                faults: faults.clone(),
                nop: 0,
                rot: 0,
                died: false,
            };
            let ops = plan.tasks[id].clone();
            let mut b = std::thread::Builder::new();
            if cfg.stack_kb > 0 {
                b = b.stack_size(cfg.stack_kb << 10);
            }
            let h = b.spawn(move || {
                tl(|t| t.task.set(id as u32));
                tl(|t| t.oplim.set(oplim));
                crate::pre::enter();
                park_until_go(id);
                let r = catch_unwind(AssertUnwindSafe(move || {
                    let mut task = task;
                    for op in &ops {
                        if g().abort || g().limit_hit {
                            break;
                        }
                        task.exec(op);
                    }
                    task.finish();
                    if g().abort {
                        std::mem::forget(task)
                    }
                }));
                if let Err(e) = r {
                    if !e.is::<Kill>() {
                        viol("harness", u32::MAX, format!("panic outside an operation: {}", last_panic()));
                    }
                }
                crate::pre::leave();
                task_done(id);
            });
            hs.push(h.expect("spawn"));
        }
        for id in 0..nt {
            hb::spawn(id)
        }
        g().s.thr = hs.iter().map(|h| h.thread().clone()).collect();
        start_first();
        park_main();
        for h in hs {
            let _ = h.join();
        }
        hb::join_all();
    } else {
        std::mem::forget(starts);
    }

    // after the last task: mailboxes and snapshots still hold what they were given
    #[allow(static_mut_refs)]
    let mut w = unsafe { WORLD.take().unwrap() };
    let gl = g();
    let end = catch_unwind(AssertUnwindSafe(|| {
        if !gl.abort && !gl.limit_hit {
            let p = other_props(fam, nt > 1);
            for ib in w.inbox.iter_mut() {
                for s in ib.iter_mut() {
                    inspect("a handle in a mailbox", "isolation", s, p, pbits(&[5]), &[]);
                }
            }
            for e in w.board.iter_mut().flatten() {
                if let Some((s, _)) = e.0.as_mut().and_then(Arc::get_mut) {
                    inspect("a published snapshot", "isolation", s, p, pbits(&[5]), &[]);
                }
            }
        }
        if gl.abort {
            std::mem::forget(w);
        } else {
            let _c = set_cut(true);
            drop(w);
        }
    }));
    if end.is_err() && !g().abort {
        viol("panic", other_props(fam, nt > 1), format!("dropping handles left in mailboxes panicked: {}", last_panic()));
    }
    let gl = g();
    let leaked = alloc::TAGGED_BYTES.load(Relaxed);
    if !gl.abort && !gl.limit_hit {
        let p = (if gl.had_panic { pbits(&[6, 7]) } else { pbits(&[6]) }) | gl.extra;
        if gl.drop_panic {
            // a container may leak what a panicking destructor kept it from dropping
        } else if gl.l.live != 0 {
            viol("ledger-leak", p, format!("{} of {} elements were never dropped", gl.l.live, gl.l.created));
        } else if leaked != 0 {
            viol("heap-leak", p, format!("{leaked} bytes in {} blocks were never freed", alloc::TAGGED_BLOCKS.load(Relaxed)));
        }
        if alloc::BAD_FREE.load(Relaxed) > 0 {
            viol("bad-free", p, format!("{} frees of memory that was not allocated, or of the wrong size", alloc::BAD_FREE.load(Relaxed)));
        }
    }
    let _ = sersim::to_val::<i32>;
    if let Some(h) = &gl.hb {
        gl.cnt[C_JUDGED] = h.judged;
        gl.cnt[C_EDGES] = h.edges;
    }
    let gl = take_global();
    let rec = match &plan.switches {
        Some(s) => s.clone(),
        None => gl.s.rec.clone(),
    };
    Outcome { gl, rec, leaked_bytes: leaked }
}
