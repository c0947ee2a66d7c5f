//! The collections under test behind one object-safe interface.  Each operation of a plan is one
//! call of the real public API; what it returns is written to an observation list.
use crate::ctl::*;
use crate::elem::*;
use crate::ops::*;
use crate::sersim;
use crate::walk::*;
use lazy_clone_collections as lcc;
use std::any::Any;
use std::hash::{Hash, Hasher};
use std::ops::Bound;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
    Avl,
    BT,
    Fixed,
    AvlSet,
    BTSet,
    Stack,
}
impl Fam {
    pub fn is_map(self) -> bool {
        matches!(self, Fam::Avl | Fam::BT | Fam::Fixed)
    }
    pub fn is_set(self) -> bool {
        matches!(self, Fam::AvlSet | Fam::BTSet)
    }
    pub fn prop(self) -> u8 {
        if self.is_map() {
            2
        } else if self.is_set() {
            3
        } else {
            4
        }
    }
}

pub trait CollImpl: Sized + Clone + Default + 'static {
    const FAM: Fam;
    const N: usize; // B-tree width, 0 otherwise
    fn new() -> Self;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn contents(&self) -> Vec<(i32, u64)>;
    fn check(&self) -> Result<(), String>;
    fn probe(&self, k: i32) -> Option<u64>;
    fn read(&self, c: &OpX, other: Option<&Self>, o: &mut Obs);
    fn update(&mut self, c: &OpX, other: Option<&mut Self>, out: &mut Option<Self>, o: &mut Obs);
    fn consume(self, c: &OpX, o: &mut Obs);
    type Cur: 'static;
    fn into_cur(self) -> Self::Cur;
    fn cur_step(c: &mut Self::Cur, back: bool) -> Option<(i32, u64)>;
    fn cur_len(c: &Self::Cur) -> (Option<usize>, (usize, Option<usize>));
    fn hashv(&self) -> Option<u64>;
    fn dbg(&self) -> Option<String>;
    fn from_items(items: &[(i32, u64)]) -> Self;
    fn ser(&self) -> Option<sersim::Val>;
    fn clear_(&mut self);
    fn insts(&self, v: &mut Vec<u32>);
}

pub trait Coll: Send + Sync {
    fn fam(&self) -> Fam;
    fn n(&self) -> usize;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn clone_box(&self) -> Box<dyn Coll>;
    fn new_box(&self) -> Box<dyn Coll>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn contents(&self) -> Vec<(i32, u64)>;
    fn check(&self) -> Result<(), String>;
    fn probe(&self, k: i32) -> Option<u64>;
    fn read(&self, c: &OpX, other: Option<&dyn Coll>, o: &mut Obs);
    fn update(&mut self, c: &OpX, other: Option<&mut dyn Coll>, out: &mut Option<Box<dyn Coll>>, o: &mut Obs);
    fn consume(self: Box<Self>, c: &OpX, o: &mut Obs);
    fn into_cur(self: Box<Self>) -> Box<dyn Cur>;
    fn hashv(&self) -> Option<u64>;
    fn dbg(&self) -> Option<String>;
    fn from_items(&self, items: &[(i32, u64)]) -> Box<dyn Coll>;
    fn clear_(&mut self);
    /// ledger numbers of every element in it
    fn insts(&self, v: &mut Vec<u32>);
    fn assign_from(&mut self, o: &dyn Coll);
    fn make_default(&self) -> Box<dyn Coll>;
}
pub trait Cur: Send {
    fn step(&mut self, back: bool) -> Option<(i32, u64)>;
    fn len(&self) -> (Option<usize>, (usize, Option<usize>));
}

pub struct W<C>(pub C);
// Sound for the simulation: only the baton holder runs, with a happens-before edge at every
// hand-over, and a Stack (Rc) is never preempted inside a reference-count operation.
unsafe impl<C> Send for W<C> {}
unsafe impl<C> Sync for W<C> {}
pub struct WC<C: CollImpl>(C::Cur);
unsafe impl<C: CollImpl> Send for WC<C> {}

impl<C: CollImpl> Cur for WC<C> {
    fn step(&mut self, back: bool) -> Option<(i32, u64)> {
        C::cur_step(&mut self.0, back)
    }
    fn len(&self) -> (Option<usize>, (usize, Option<usize>)) {
        C::cur_len(&self.0)
    }
}

impl<C: CollImpl> Coll for W<C> {
    fn fam(&self) -> Fam {
        C::FAM
    }
    fn n(&self) -> usize {
        C::N
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        &mut self.0
    }
    fn clone_box(&self) -> Box<dyn Coll> {
        Box::new(W(self.0.clone()))
    }
    fn new_box(&self) -> Box<dyn Coll> {
        Box::new(W(C::new()))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn contents(&self) -> Vec<(i32, u64)> {
        self.0.contents()
    }
    fn check(&self) -> Result<(), String> {
        self.0.check()
    }
    fn probe(&self, k: i32) -> Option<u64> {
        self.0.probe(k)
    }
    fn read(&self, c: &OpX, other: Option<&dyn Coll>, o: &mut Obs) {
        self.0.read(c, other.map(|x| x.any().downcast_ref::<C>().unwrap()), o)
    }
    fn update(&mut self, c: &OpX, other: Option<&mut dyn Coll>, out: &mut Option<Box<dyn Coll>>, o: &mut Obs) {
        let mut res = None;
        self.0.update(c, other.map(|x| x.any_mut().downcast_mut::<C>().unwrap()), &mut res, o);
        *out = res.map(|x| Box::new(W(x)) as Box<dyn Coll>);
    }
    fn consume(self: Box<Self>, c: &OpX, o: &mut Obs) {
        let me = *self;
        me.0.consume(c, o)
    }
    fn into_cur(self: Box<Self>) -> Box<dyn Cur> {
        let me = *self;
        Box::new(WC::<C>(me.0.into_cur()))
    }
    fn hashv(&self) -> Option<u64> {
        self.0.hashv()
    }
    fn dbg(&self) -> Option<String> {
        self.0.dbg()
    }
    fn from_items(&self, items: &[(i32, u64)]) -> Box<dyn Coll> {
        Box::new(W(C::from_items(items)))
    }
    fn clear_(&mut self) {
        self.0.clear_()
    }
    fn insts(&self, v: &mut Vec<u32>) {
        self.0.insts(v)
    }
    fn assign_from(&mut self, o: &dyn Coll) {
        self.0.clone_from(o.any().downcast_ref::<C>().unwrap())
    }
    fn make_default(&self) -> Box<dyn Coll> {
        Box::new(W(C::default()))
    }
}

pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bs: &[u8]) {
        for b in bs {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    // and as an element of a slice
    std::slice::from_ref(x).hash(&mut h);
    h.finish()
}

/// the caller's iterator given to extend / collect: a callback at every step
struct Src<'a, F> {
    c: &'a OpX,
    i: usize,
    n: usize,
    mk: F,
}
impl<'a, T, F: FnMut(i32, u64) -> T> Iterator for Src<'a, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        callback(CB_SRC);
        if self.i >= self.n {
            return None;
        }
        let (k, t) = self.c.item(self.i);
        self.i += 1;
        let x = (self.mk)(k, t);
        progress(self.i);
        Some(x)
    }
    // exact, vague, or plainly wrong: nothing may depend on it
    fn size_hint(&self) -> (usize, Option<usize>) {
        let rem = self.n.saturating_sub(self.i);
        match self.c.pat >> 33 & 7 {
            0 | 1 => (rem, Some(rem)),
            2 => (rem / 2, None),
            3 => (0, None),
            4 => (0, Some(rem * 2)),
            5 => (rem + 1 + self.n, Some(rem + 1 + self.n)),
            6 => (0, Some(0)),
            _ => (rem / 2, Some(rem / 2)),
        }
    }
}
pub fn progress(i: usize) {
    tl(|t| t.progress.set(i as u32));
}
fn src<'a, T, F: FnMut(i32, u64) -> T>(c: &'a OpX, n: usize, mk: F) -> Src<'a, F> {
    Src { c, i: 0, n, mk }
}

fn qb(b: Bound<i32>) -> Bound<Q> {
    match b {
        Bound::Included(x) => Bound::Included(Q::new(x)),
        Bound::Excluded(x) => Bound::Excluded(Q::new(x)),
        Bound::Unbounded => Bound::Unbounded,
    }
}
fn q(k: i32) -> Q {
    Q::new(k)
}
fn kv<K: Key>(e: (&K, &V)) -> (i32, u64) {
    (e.0.val(), e.1.tok())
}
fn kvo<K: Key>(e: (K, V)) -> (i32, u64) {
    (e.0.val(), e.1.tok())
}
const WFOLD: usize = usize::MAX / 2;

/// user loop body over a mutable iterator: closure fault point, then the write
fn wr(c: &OpX, step: usize, v: &mut V) -> u64 {
    let old = v.tok();
    if step < WFOLD {
        if c.writes_first() {
            v.set(c.tok + 1 + step as u64);
            progress(step + 1);
            callback(CB_CLOSURE);
        } else {
            callback(CB_CLOSURE);
            v.set(c.tok + 1 + step as u64);
            progress(step + 1);
        }
    }
    old
}
/// user closure given to and_modify; it may fail before or after its write
fn md(c: &OpX, v: &mut V) -> Option<u64> {
    let old = v.tok();
    if c.writes_first() {
        v.set(c.tok);
        progress(1);
        callback(CB_CLOSURE);
    } else {
        callback(CB_CLOSURE);
        v.set(c.tok);
    }
    Some(old)
}

/// plain and (for small ones) pretty
fn dbg_text<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    if s.len() < 20_000 {
        format!("{s}\n{:#?}", x)
    } else {
        s
    }
}
/// a text sink that is full after some bytes
struct FullSink {
    room: usize,
    got: String,
    failed: bool,
    after: bool,
}
impl std::fmt::Write for FullSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _c = set_cut(false);
        if self.failed {
            self.after = true;
        }
        if s.len() > self.room {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.room -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
/// a hash of the keys and values a debug text lists, in order
fn listed(l: &str) -> u64 {
    let l = l.as_bytes();
    let (mut h, mut i) = (7, 0);
    while i < l.len() {
        let start = (l[i] == b'k' || l[i] == b'v') && (i == 0 || !l[i - 1].is_ascii_alphanumeric());
        i += 1;
        if start && i < l.len() && l[i].is_ascii_digit() {
            let mut n = 0u64;
            while i < l.len() && l[i].is_ascii_digit() {
                n = n.wrapping_mul(10).wrapping_add((l[i] - b'0') as u64);
                i += 1;
            }
            h = crate::rng::mix2(h, n)
        }
    }
    h
}
/// the entries named in a debug text, then a hash of the text
fn dbg_obs<T: std::fmt::Debug>(x: &T, c: &OpX, o: &mut Obs) {
    use std::fmt::Write;
    let s = &dbg_text(x)[..];
    if c.pat >> 50 & 3 == 0 {
        let text = s.lines().next().unwrap_or("");
        let room = crate::rng::mix(c.pat ^ 0xF0) as usize % (text.len() + 1);
        let mut w = FullSink { room, got: String::new(), failed: false, after: false };
        let r = write!(w, "{x:?}");
        let _c = set_cut(false);
        g().fired[16] += w.failed as u64;
        if room < text.len() && r.is_ok() {
            viol("fmt-error", pbits(&[12]), format!("printing into a sink with room for {room} of {} bytes reported success", text.len()));
        }
        if w.after || !text.starts_with(&w.got[..]) {
            viol("fmt-error", pbits(&[12]), format!("printing into a sink with room for {room} of {} bytes went on after the sink's error or wrote something else", text.len()));
        }
    }
    let (l, pretty) = s.split_once('\n').unwrap_or((s, ""));
    let h = listed(l);
    if !pretty.is_empty() && listed(pretty) != h {
        viol("fmt-entries", pbits(&[12]), format!("the pretty debug text ({{:#?}}) lists other entries than the plain one: {}..", pretty.chars().take(200).collect::<String>()));
    }
    o.p(h as i64);
    o.p(hash_of(&s) as i64);
}
/// a range whose start lies after its end: yields nothing (or is refused by a panic)
fn bad_range<I: Iterator>(c: &OpX, o: &mut Obs, mk: impl FnOnce((Bound<Q>, Bound<Q>)) -> I) {
    let (l, h) = c.bad_bounds();
    let b = (qb(l), qb(h));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mk(b).count()));
    match r {
        Ok(n) => o.p(n as i64),
        Err(e) if e.is::<Injected>() || e.is::<Kill>() => std::panic::resume_unwind(e),
        Err(_) => o.p(0),
    }
}
pub fn ord_i(o: std::cmp::Ordering) -> i64 {
    o as i64
}
/// partial_cmp, and whether the operators agree with it
#[allow(clippy::neg_cmp_op_on_partial_ord)]
fn pcmp_obs<T: PartialOrd>(a: &T, b: &T, o: &mut Obs) {
    o.p(a.partial_cmp(b).map_or(NONE, ord_i));
    o.b(a < b);
    o.b(a <= b);
    o.b(a > b);
    o.b(a >= b);
}
/// cmp, and which of two max picks
fn ord_obs<T: Ord + Clone>(a: &T, b: &T, o: &mut Obs) {
    let c = Ord::cmp(a, b);
    o.p(ord_i(c));
    o.b(a.clone().max(b.clone()) == *if c.is_gt() { a } else { b });
    o.b(a.clone().min(b.clone()) == *if c.is_gt() { b } else { a });
}

/// observation of a range/iter that is only looked at when fewer than len items
macro_rules! map_impl {
    ([$($g:tt)*] $t:ty, $fam:expr, $n:expr, $cur:ty, $from_items:expr,
     ($s:ident, $c:ident, $oth:ident, $out:ident, $o:ident)
     read { $($rx:tt)* } update { $($ux:tt)* } consume { $($cx:tt)* } hash $hs:expr) => {
        impl<$($g)*> CollImpl for $t {
            const FAM: Fam = $fam;
            const N: usize = $n;
            type Cur = $cur;
            fn new() -> Self { <$t>::new() }
            fn len(&self) -> usize { <$t>::len(self) }
            fn is_empty(&self) -> bool { <$t>::is_empty(self) }
            fn contents(&self) -> Vec<(i32, u64)> { self.iter().map(kv).collect() }
            fn check(&self) -> Result<(), String> { lcc::Map::check(self) }
            fn probe(&self, k: i32) -> Option<u64> { self.get(&q(k)).map(|v| v.tok()) }
            fn into_cur(self) -> Self::Cur { self.into_iter() }
            fn cur_step(c: &mut Self::Cur, back: bool) -> Option<(i32, u64)> {
                (if back { c.next_back() } else { c.next() }).map(kvo)
            }
            fn cur_len(c: &Self::Cur) -> (Option<usize>, (usize, Option<usize>)) { (Some(c.len()), c.size_hint()) }
            fn hashv(&self) -> Option<u64> { let f: fn(&Self) -> Option<u64> = $hs; f(self) }
            fn dbg(&self) -> Option<String> { Some(dbg_text(self)) }
            fn from_items(items: &[(i32, u64)]) -> Self {
                items.iter().map(|(k, t)| (K::mk(*k), V::new(*t))).collect()
            }
            fn ser(&self) -> Option<sersim::Val> { Some(sersim::to_val(self)) }
            fn clear_(&mut self) { self.clear() }
            fn insts(&self, v: &mut Vec<u32>) { for (k, x) in self.iter() { v.push(k.inst()); v.push(x.inst()) } }

            fn read(&self, $c: &OpX, $oth: Option<&Self>, $o: &mut Obs) {
                let $s = self;
                let (c, o) = ($c, &mut *$o);
                match c.oc {
                    Oc::Get => o.opt(self.get(&q(c.key)).map(|v| v.tok())),
                    Oc::GetKv => o.okv(self.get_key_value(&q(c.key)).map(kv)),
                    Oc::Contains => o.b(self.contains_key(&q(c.key))),
                    Oc::First => o.okv(self.first_key_value().map(kv)),
                    Oc::Last => o.okv(self.last_key_value().map(kv)),
                    Oc::Iter => {
                        if c.pat >> 40 & 1 == 0 {
                            walk_de(c, "iter", self.iter(), Some(|i| i.len()), o, |_, e| kv(e))
                        } else {
                            walk_de(c, "&into_iter", (&*self).into_iter(), Some(|i| i.len()), o, |_, e| kv(e))
                        }
                    }
                    Oc::Keys => walk_de(c, "keys", self.keys(), Some(|i| i.len()), o, |_, k| (k.val(), 0)),
                    Oc::Values => walk_de(c, "values", self.values(), Some(|i| i.len()), o, |_, v| (0, v.tok())),
                    Oc::Range => {
                        let cm = tl(|t| t.cmps.get());
                        let it = self.range::<Q, _>((qb(c.lo), qb(c.hi)));
                        range_cost(c, $n, tl(|t| t.cmps.get()) - cm);
                        walk_de(c, "range", it, None, o, |_, e| kv(e))
                    }
                    Oc::RangeBad => bad_range(c, o, |b| self.range::<Q, _>(b)),
                    Oc::Eq => {
                        let x = $oth.unwrap();
                        o.b(self == x);
                        o.b(self != x);
                    }
                    Oc::Cmp => ord_obs(self, $oth.unwrap(), o),
                    Oc::PCmp => pcmp_obs(self, $oth.unwrap(), o),
                    Oc::Hash => o.opt(self.hashv()),
                    Oc::Dbg => dbg_obs(self, c, o),
                    Oc::Ser => sersim::ser_op(self, c, o),
                    $($rx)*
                    _ => unreachable!("{:?}", c.oc),
                }
            }
            fn update(&mut self, $c: &OpX, $oth: Option<&mut Self>, $out: &mut Option<Self>, $o: &mut Obs) {
                let $s = self;
                let (c, o) = ($c, &mut *$o);
                match c.oc {
                    Oc::GetMut => o.opt($s.get_mut(&q(c.key)).map(|v| { let x = v.tok(); v.set(c.tok); x })),
                    Oc::Insert => o.opt($s.insert(K::mk(c.key), V::new(c.tok)).map(|v| v.tok())),
                    Oc::Remove => o.opt($s.remove(&q(c.key)).map(|v| v.tok())),
                    Oc::PopFirst => o.okv($s.pop_first().map(kvo)),
                    Oc::PopLast => o.okv($s.pop_last().map(kvo)),
                    Oc::EntryOrInsert => {
                        let v = $s.entry(K::mk(c.key)).or_insert(V::new(c.tok));
                        o.opt(Some(v.tok()));
                        if c.pat & 1 == 1 { v.set(c.tok + 1) }
                    }
                    Oc::EntryOrInsertWith => {
                        let v = $s.entry(K::mk(c.key)).or_insert_with(|| { callback(CB_CLOSURE); V::new(c.tok) });
                        o.opt(Some(v.tok()));
                        if c.pat & 1 == 1 { v.set(c.tok + 1) }
                    }
                    Oc::EntryOrInsertWithKey => {
                        let mut seen = NONE;
                        let v = $s.entry(K::mk(c.key)).or_insert_with_key(|k| { callback(CB_CLOSURE); seen = k.val() as i64; V::new(c.tok) });
                        let t = v.tok();
                        if c.pat & 1 == 1 { v.set(c.tok + 1) }
                        o.opt(Some(t));
                        o.p(seen);
                    }
                    Oc::EntryOrDefault => {
                        let v = $s.entry(K::mk(c.key)).or_default();
                        o.opt(Some(v.tok()));
                        if c.pat & 1 == 1 { v.set(c.tok + 1) }
                    }
                    Oc::EntryAndModify => {
                        let mut seen = None;
                        let e = $s.entry(K::mk(c.key)).and_modify(|v| seen = md(c, v));
                        let k = e.key().val();
                        o.opt(seen);
                        o.p(k as i64);
                    }
                    Oc::EntryModOrInsert => {
                        let mut seen = None;
                        let v = $s.entry(K::mk(c.key)).and_modify(|v| seen = md(c, v))
                            .or_insert_with(|| { callback(CB_CLOSURE); V::new(c.tok + 1) });
                        let t = v.tok();
                        o.opt(seen);
                        o.opt(Some(t));
                    }
                    Oc::EntryKey => {
                        let e = $s.entry(K::mk(c.key));
                        o.p(e.key().val() as i64);
                    }
                    Oc::FirstEntryMod | Oc::LastEntryMod => {
                        let e = if c.oc == Oc::FirstEntryMod { $s.first_entry() } else { $s.last_entry() };
                        match e {
                            None => o.p(NONE),
                            Some(e) => {
                                o.p(e.key().val() as i64);
                                let mut seen = None;
                                e.and_modify(|v| seen = md(c, v));
                                o.opt(seen);
                            }
                        }
                    }
                    Oc::Retain => {
                        let mut seen = vec![];
                        $s.retain(|k, v| {
                            callback(CB_CLOSURE);
                            let k = k.val();
                            seen.push((k, v.tok()));
                            if c.retain_writes(k) { v.set(c.tok) }
                            c.keep(k)
                        });
                        for (k, t) in seen { o.kv(k, t) }
                    }
                    Oc::Clear => $s.clear(),
                    Oc::IterMut => {
                        if c.pat >> 40 & 1 == 0 {
                            walk_de(c, "iter_mut", $s.iter_mut(), Some(|i| i.len()), o, |i, (k, v)| (k.val(), wr(c, i, v)))
                        } else {
                            walk_de(c, "&mut into_iter", (&mut *$s).into_iter(), Some(|i| i.len()), o, |i, (k, v)| (k.val(), wr(c, i, v)))
                        }
                    }
                    Oc::ValuesMut => walk_de(c, "values_mut", $s.values_mut(), Some(|i| i.len()), o, |i, v| (0, wr(c, i, v))),
                    Oc::RangeMut => {
                        let cm = tl(|t| t.cmps.get());
                        let it = $s.range_mut::<Q, _>((qb(c.lo), qb(c.hi)));
                        range_cost(c, $n, tl(|t| t.cmps.get()) - cm);
                        walk_de(c, "range_mut", it, None, o, |i, (k, v)| (k.val(), wr(c, i, v)))
                    }
                    Oc::RangeMutBad => bad_range(c, o, |b| $s.range_mut::<Q, _>(b)),
                    Oc::Extend => $s.extend(src(c, c.n, |k, t| (K::mk(k), V::new(t)))),
                    Oc::Append => $s.append($oth.unwrap()),
                    Oc::SplitOff => *$out = Some($s.split_off(&q(c.key))),
                    Oc::FromIter => *$out = Some(src(c, c.n, |k, t| (K::mk(k), V::new(t))).collect()),
                    Oc::FromArr => {
                        let e = |i| { let (k, t) = c.item(i); (K::mk(k), V::new(t)) };
                        *$out = Some(if c.pat & 8 == 0 { <$t>::from([e(0), e(1), e(2), e(3)]) } else { <$t>::from([e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11)]) });
                    }
                    Oc::De => *$out = sersim::de_op::<$t>(c, o),
                    Oc::SerDe => *$out = sersim::ser_de::<$t>($s, c, o),
                    $($ux)*
                    _ => unreachable!("{:?}", c.oc),
                }
            }
            fn consume(self, $c: &OpX, $o: &mut Obs) {
                let $s = self;
                let (c, o) = ($c, &mut *$o);
                match c.oc {
                    Oc::IntoIter => walk_de(c, "into_iter", $s.into_iter(), Some(|i| i.len()), o, |_, e| kvo(e)),
                    Oc::IntoKeys => walk_de(c, "into_keys", $s.into_keys(), Some(|i| i.len()), o, |_, k| (k.val(), 0)),
                    Oc::IntoValues => walk_de(c, "into_values", $s.into_values(), Some(|i| i.len()), o, |_, v| (0, v.tok())),
                    $($cx)*
                    _ => unreachable!("{:?}", c.oc),
                }
            }
        }
    };
}

/// comparisons needed to set up a range: logarithmic
fn range_cost(c: &OpX, n: usize, cmps: u32) {
    if tl(|t| t.quiet.get()) > 0 {
        return;
    }
    let levels = if n == 0 { crate::oracle::avl_height_bound(c.len) } else { crate::oracle::bt_depth_bound(c.len, n) };
    let per = if n == 0 { 12 } else { 6 * (2 * n + 1) + 6 };
    let bound = (levels + 1) * per + 16;
    if cmps as usize > bound {
        viol("range-cost", c.iter_props, format!("setting up a range over {} entries took {cmps} comparisons (bound {bound})", c.len));
    }
}

use std::mem::take;
fn rhs<T: Clone + Default>(c: &OpX, o: Option<&mut T>) -> T {
    let o = o.unwrap();
    if c.pat & 1 == 1 {
        take(o)
    } else {
        o.clone()
    }
}

map_impl! {
    [K: Key] lcc::AvlMap<K, V>, Fam::Avl, 0, <lcc::AvlMap<K, V> as IntoIterator>::IntoIter, (),
    (s, c, oth, out, o)
    read {
        Oc::ForEach => s.for_each(|(k, v)| { callback(CB_CLOSURE); o.kv(k.val(), v.tok()) }),
        Oc::Index => o.opt(if c.present { Some(s[&q(c.key)].tok()) } else { None }),
    }
    update {
        Oc::RemoveEntry => o.okv(s.remove_entry(&q(c.key)).map(kvo)),
        Oc::ForEachMut => {
            let mut i = 0;
            s.for_each_mut(|(k, v)| { let t = wr(c, i, v); i += 1; o.kv(k.val(), t) })
        }
        Oc::ExtendRef => {
            let items: Vec<(K, V)> = (0..c.n).map(|i| { let (k, t) = c.item(i); (K::mk(k), V::new(t)) }).collect();
            let mut i = 0;
            s.extend(items.iter().map(|(k, v)| { callback(CB_SRC); i += 1; progress(i); (k, v) }))
        }
        Oc::NewUnion => { let r = rhs(c, oth); let l = take(s); *s = lcc::AvlMap::new_union(l, r) }
        Oc::NewInter => { let r = rhs(c, oth); let l = take(s); *s = lcc::AvlMap::new_intersect(l, r) }
        Oc::NewDiff => { let r = rhs(c, oth); let l = take(s); *s = lcc::AvlMap::new_diff(l, r) }
        Oc::NewSym => { let r = rhs(c, oth); let l = take(s); *s = lcc::AvlMap::new_sym_diff(l, r) }
        Oc::NewJoin => {
            // join at c.key: everything of s below, everything of the other above
            let mut r = rhs(c, oth);
            let mut r = r.split_off(&q(c.key));
            r.remove(&q(c.key));
            let mut l = take(s);
            l.split_off(&q(c.key));
            *s = lcc::AvlMap::new_join(l, K::mk(c.key), V::new(c.tok), r)
        }
    }
    consume {}
    hash |m| Some(hash_of(m))
}

map_impl! {
    [K: Key, const N: usize] lcc::btree::BTreeMap<K, V, N>, Fam::BT, N, <lcc::btree::BTreeMap<K, V, N> as IntoIterator>::IntoIter, (),
    (s, c, oth, out, o)
    read {}
    update {}
    consume {
        Oc::IntoVec => { let v: Vec<(K, V)> = s.into(); for e in v { let (k, t) = kvo(e); o.kv(k, t) } }
    }
    hash |_| None
}

// ---------------------------------------------------------------- fixed-width map

type FixedIntoIter<K> = <lcc::btree::fixed::BTreeMap<K, V> as IntoIterator>::IntoIter;

impl<K: Key> CollImpl for lcc::btree::fixed::BTreeMap<K, V> {
    const FAM: Fam = Fam::Fixed;
    const N: usize = 5;
    type Cur = FixedIntoIter<K>;
    fn new() -> Self {
        lcc::btree::fixed::BTreeMap::new()
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn is_empty(&self) -> bool {
        self.is_empty()
    }
    fn contents(&self) -> Vec<(i32, u64)> {
        self.iter().map(kv).collect()
    }
    fn check(&self) -> Result<(), String> {
        Ok(())
    }
    fn probe(&self, k: i32) -> Option<u64> {
        self.get(&q(k)).map(|v| v.tok())
    }
    fn into_cur(self) -> Self::Cur {
        self.into_iter()
    }
    fn cur_step(c: &mut Self::Cur, back: bool) -> Option<(i32, u64)> {
        (if back { c.next_back() } else { c.next() }).map(kvo)
    }
    fn cur_len(c: &Self::Cur) -> (Option<usize>, (usize, Option<usize>)) {
        (Some(c.len()), c.size_hint())
    }
    fn hashv(&self) -> Option<u64> {
        None
    }
    fn dbg(&self) -> Option<String> {
        None
    }
    fn from_items(items: &[(i32, u64)]) -> Self {
        items.iter().map(|(k, t)| (K::mk(*k), V::new(*t))).collect()
    }
    fn ser(&self) -> Option<sersim::Val> {
        None
    }
    fn clear_(&mut self) {
        self.clear()
    }
    fn insts(&self, v: &mut Vec<u32>) {
        for (k, x) in self.iter() {
            v.push(k.inst());
            v.push(x.inst());
        }
    }
    fn read(&self, c: &OpX, _oth: Option<&Self>, o: &mut Obs) {
        match c.oc {
            Oc::Get => o.opt(self.get(&q(c.key)).map(|v| v.tok())),
            Oc::Iter => walk_de(c, "iter", self.iter(), Some(|i| i.len()), o, |_, e| kv(e)),
            _ => unreachable!("{:?}", c.oc),
        }
    }
    fn update(&mut self, c: &OpX, _oth: Option<&mut Self>, out: &mut Option<Self>, o: &mut Obs) {
        match c.oc {
            Oc::GetMut => o.opt(self.get_mut(&q(c.key)).map(|v| {
                let x = v.tok();
                v.set(c.tok);
                x
            })),
            Oc::Insert => o.opt(self.insert(K::mk(c.key), V::new(c.tok)).map(|v| v.tok())),
            Oc::Remove => o.opt(self.remove(&q(c.key)).map(|v| v.tok())),
            Oc::Clear => self.clear(),
            Oc::IterMut => walk_de(c, "iter_mut", self.iter_mut(), Some(|i| i.len()), o, |i, (k, v)| (k.val(), wr(c, i, v))),
            Oc::Extend => self.extend(src(c, c.n, |k, t| (K::mk(k), V::new(t)))),
            Oc::FromIter => *out = Some(src(c, c.n, |k, t| (K::mk(k), V::new(t))).collect()),
            _ => unreachable!("{:?}", c.oc),
        }
    }
    fn consume(self, c: &OpX, o: &mut Obs) {
        match c.oc {
            Oc::IntoIter => walk_de(c, "into_iter", self.into_iter(), Some(|i| i.len()), o, |_, e| kvo(e)),
            _ => unreachable!("{:?}", c.oc),
        }
    }
}

// ---------------------------------------------------------------- sets

macro_rules! set_impl {
    ([$($g:tt)*] $t:ty, $fam:expr, $n:expr, $walk:ident, |$cc:ident, $cb:ident| $curstep:expr) => {
        impl<$($g)*> CollImpl for $t {
            const FAM: Fam = $fam;
            const N: usize = $n;
            type Cur = <$t as IntoIterator>::IntoIter;
            fn new() -> Self { <$t>::new() }
            fn len(&self) -> usize { <$t>::len(self) }
            fn is_empty(&self) -> bool { <$t>::is_empty(self) }
            fn contents(&self) -> Vec<(i32, u64)> { self.iter().map(|k| (k.val(), 0)).collect() }
            fn check(&self) -> Result<(), String> { lcc::Set::check(self) }
            fn probe(&self, k: i32) -> Option<u64> { self.get(&q(k)).map(|_| 0) }
            fn into_cur(self) -> Self::Cur { self.into_iter() }
            fn cur_step($cc: &mut Self::Cur, $cb: bool) -> Option<(i32, u64)> { let x: Option<K> = $curstep; x.map(|k| (k.val(), 0)) }
            fn cur_len(c: &Self::Cur) -> (Option<usize>, (usize, Option<usize>)) { (Some(c.len()), c.size_hint()) }
            fn hashv(&self) -> Option<u64> { Some(hash_of(self)) }
            fn dbg(&self) -> Option<String> { Some(dbg_text(self)) }
            fn from_items(items: &[(i32, u64)]) -> Self { items.iter().map(|(k, _)| K::mk(*k)).collect() }
            fn ser(&self) -> Option<sersim::Val> { Some(sersim::to_val(self)) }
            fn clear_(&mut self) { self.clear() }
            fn insts(&self, v: &mut Vec<u32>) { for k in self.iter() { v.push(k.inst()) } }
            fn read(&self, c: &OpX, oth: Option<&Self>, o: &mut Obs) {
                let k = |k: &K| (k.val(), 0);
                match c.oc {
                    Oc::Get => o.opt(self.get(&q(c.key)).map(|x| x.val() as u64)),
                    Oc::Contains => o.b(self.contains(&q(c.key))),
                    Oc::First => o.okv(self.first().map(k)),
                    Oc::Last => o.okv(self.last().map(k)),
                    Oc::Iter => {
                        if c.pat >> 40 & 1 == 0 {
                            $walk(c, "iter", self.iter(), Some(|i| i.len()), o, |_, e| k(e))
                        } else {
                            $walk(c, "&into_iter", (&*self).into_iter(), Some(|i| i.len()), o, |_, e| k(e))
                        }
                    }
                    Oc::Range => {
                        let cm = tl(|t| t.cmps.get());
                        let it = self.range::<Q, _>((qb(c.lo), qb(c.hi)));
                        range_cost(c, $n, tl(|t| t.cmps.get()) - cm);
                        walk_de(c, "range", it, None, o, |_, e| k(e))
                    }
                    Oc::RangeBad => bad_range(c, o, |b| self.range::<Q, _>(b)),
                    Oc::Eq => { let x = oth.unwrap(); o.b(self == x); o.b(self != x); }
                    Oc::Cmp => ord_obs(self, oth.unwrap(), o),
                    Oc::PCmp => pcmp_obs(self, oth.unwrap(), o),
                    Oc::Hash => o.opt(self.hashv()),
                    Oc::Dbg => dbg_obs(self, c, o),
                    Oc::Ser => sersim::ser_op(self, c, o),
                    Oc::SubSet => o.b(self.is_subset(oth.unwrap())),
                    Oc::SuperSet => o.b(self.is_superset(oth.unwrap())),
                    Oc::Disjoint => o.b(self.is_disjoint(oth.unwrap())),
                    Oc::Diff => walk_se(c, "difference", self.difference(oth.unwrap()), None, o, |_, e| k(e)),
                    Oc::Inter => walk_se(c, "intersection", self.intersection(oth.unwrap()), None, o, |_, e| k(e)),
                    Oc::Union => walk_se(c, "union", self.union(oth.unwrap()), None, o, |_, e| k(e)),
                    Oc::SymDiff => walk_se(c, "symmetric_difference", self.symmetric_difference(oth.unwrap()), None, o, |_, e| k(e)),
                    Oc::OpAnd | Oc::OpOr | Oc::OpXor | Oc::OpSub => {
                        let x = oth.unwrap();
                        let r = match c.oc { Oc::OpAnd => self & x, Oc::OpOr => self | x, Oc::OpXor => self ^ x, _ => self - x };
                        for e in CollImpl::contents(&r) { o.kv(e.0, e.1) }
                        o.p(r.len() as i64);
                        let _q = quiet();
                        if let Err(e) = lcc::Set::check(&r) { viol("check", pbits(&[5, 3]), format!("result of set operator: {e}")) }
                    }
                    _ => unreachable!("{:?}", c.oc),
                }
            }
            fn update(&mut self, c: &OpX, oth: Option<&mut Self>, out: &mut Option<Self>, o: &mut Obs) {
                let s = self;
                let k = |k: K| (k.val(), 0);
                match c.oc {
                    Oc::Insert => o.b(s.insert(K::mk(c.key))),
                    Oc::Remove => o.b(s.remove(&q(c.key))),
                    Oc::Take => o.okv(s.take(&q(c.key)).map(k)),
                    Oc::Replace => o.okv(s.replace(K::mk(c.key)).map(k)),
                    Oc::PopFirst => o.okv(s.pop_first().map(k)),
                    Oc::PopLast => o.okv(s.pop_last().map(k)),
                    Oc::Retain => {
                        let mut seen = vec![];
                        s.retain(|k| { callback(CB_CLOSURE); let k = k.val(); seen.push(k); c.keep(k) });
                        for k in seen { o.kv(k, 0) }
                    }
                    Oc::Clear => s.clear(),
                    Oc::Extend => s.extend(src(c, c.n, |k, _| K::mk(k))),
                    Oc::ExtendRef => {
                        let items: Vec<K> = (0..c.n).map(|i| K::mk(c.item(i).0)).collect();
                        let mut i = 0;
                        s.extend(items.iter().map(|k| { callback(CB_SRC); i += 1; progress(i); k }))
                    }
                    Oc::Append => s.append(oth.unwrap()),
                    Oc::SplitOff => *out = Some(s.split_off(&q(c.key))),
                    Oc::NewUnion => { let r = rhs(c, oth); let l = take(s); *s = <$t>::new_union(l, r) }
                    Oc::NewInter => { let r = rhs(c, oth); let l = take(s); *s = <$t>::new_intersection(l, r) }
                    Oc::NewDiff => { let r = rhs(c, oth); let l = take(s); *s = <$t>::new_diff(l, r) }
                    Oc::NewSym => { let r = rhs(c, oth); let l = take(s); *s = <$t>::new_sym_diff(l, r) }
                    Oc::FromIter => *out = Some(src(c, c.n, |k, _| K::mk(k)).collect()),
                    Oc::FromArr => {
                        let e = |i| K::mk(c.item(i).0);
                        *out = Some(if c.pat & 8 == 0 { <$t>::from([e(0), e(1), e(2), e(3)]) } else { <$t>::from([e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11)]) });
                    }
                    Oc::De => *out = sersim::de_op::<$t>(c, o),
                    Oc::SerDe => *out = sersim::ser_de::<$t>(s, c, o),
                    _ => unreachable!("{:?}", c.oc),
                }
            }
            fn consume(self, c: &OpX, o: &mut Obs) {
                match c.oc {
                    Oc::IntoIter => $walk(c, "into_iter", self.into_iter(), Some(|i| i.len()), o, |_, e: K| (e.val(), 0)),
                    _ => unreachable!("{:?}", c.oc),
                }
            }
        }
    };
}
set_impl! { [K: Key] lcc::AvlSet<K>, Fam::AvlSet, 0, walk_se, |c, b| { let _ = b; c.next() } }
set_impl! { [K: Key, const N: usize] lcc::btree::btree_set::BTreeSet<K, N>, Fam::BTSet, N, walk_de, |c, b| if b { c.next_back() } else { c.next() } }

// ---------------------------------------------------------------- stack

impl CollImpl for lcc::Stack<V> {
    const FAM: Fam = Fam::Stack;
    const N: usize = 0;
    type Cur = <lcc::Stack<V> as IntoIterator>::IntoIter;
    fn new() -> Self {
        lcc::Stack::new()
    }
    fn len(&self) -> usize {
        lcc::Stack::len(self)
    }
    fn is_empty(&self) -> bool {
        lcc::Stack::is_empty(self)
    }
    // bottom first, as the model
    fn contents(&self) -> Vec<(i32, u64)> {
        let mut v: Vec<_> = self.iter().map(|v| (0, v.tok())).collect();
        v.reverse();
        v
    }
    fn check(&self) -> Result<(), String> {
        Ok(())
    }
    fn probe(&self, _: i32) -> Option<u64> {
        self.top().map(|v| v.tok())
    }
    fn into_cur(self) -> Self::Cur {
        self.into_iter()
    }
    fn cur_step(c: &mut Self::Cur, _back: bool) -> Option<(i32, u64)> {
        c.next().map(|v| (0, v.tok()))
    }
    fn cur_len(c: &Self::Cur) -> (Option<usize>, (usize, Option<usize>)) {
        (None, c.size_hint())
    }
    fn hashv(&self) -> Option<u64> {
        None
    }
    fn dbg(&self) -> Option<String> {
        Some(dbg_text(self))
    }
    fn from_items(items: &[(i32, u64)]) -> Self {
        items.iter().map(|(_, t)| V::new(*t)).collect()
    }
    fn ser(&self) -> Option<sersim::Val> {
        None
    }
    fn clear_(&mut self) {
        self.clear()
    }
    fn insts(&self, v: &mut Vec<u32>) {
        v.extend(self.iter().map(|x| x.inst()))
    }
    fn read(&self, c: &OpX, oth: Option<&Self>, o: &mut Obs) {
        match c.oc {
            Oc::Top => o.opt(self.top().map(|v| v.tok())),
            Oc::Iter => walk_se(c, "iter", self.iter(), None, o, |_, v| (0, v.tok())),
            Oc::Eq => {
                let x = oth.unwrap();
                o.b(self == x);
                o.b(self != x);
            }
            Oc::Cmp => ord_obs(self, oth.unwrap(), o),
            Oc::PCmp => pcmp_obs(self, oth.unwrap(), o),
            Oc::Dbg => dbg_obs(self, c, o),
            Oc::StkContains => {
                let v = V::new(c.item(0).1);
                o.b(self.contains(&v));
                // and one that is there: the top
                if let Some(t) = self.top() {
                    let v = V::new(t.tok());
                    o.b(self.contains(&v));
                }
            }
            _ => unreachable!("{:?}", c.oc),
        }
    }
    fn update(&mut self, c: &OpX, oth: Option<&mut Self>, out: &mut Option<Self>, o: &mut Obs) {
        let s = self;
        let _ = oth;
        match c.oc {
            Oc::Push => s.push(V::new(c.tok)),
            Oc::Pop => o.opt(s.pop().map(|v| v.tok())),
            Oc::TopMut => o.opt(s.top_mut().map(|v| {
                let x = v.tok();
                v.set(c.tok);
                x
            })),
            Oc::Clear => s.clear(),
            Oc::StkRemove => {
                if c.len > 0 {
                    o.opt(Some(s.remove(c.pos()).tok()))
                }
            }
            Oc::StkSplit => *out = Some(s.split_off(c.pos1())),
            Oc::StkRemoveBad | Oc::StkSplitBad => {
                // must panic, and change nothing
                let bad = c.len + if c.oc == Oc::StkSplitBad { 1 } else { 0 } + (c.pat % 3) as usize;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if c.oc == Oc::StkRemoveBad {
                        let _ = s.remove(bad);
                    } else {
                        let _ = s.split_off(bad);
                    }
                }));
                o.b(r.is_err());
            }
            Oc::IterMut => walk_se(c, "iter_mut", s.iter_mut(), None, o, |i, v| (0, wr(c, i, v))),
            Oc::Extend => s.extend(src(c, c.n, |_, t| V::new(t))),
            Oc::FromIter => *out = Some(src(c, c.n, |_, t| V::new(t)).collect()),
            Oc::FromArr => {
                let v: Vec<V> = (0..c.n).map(|i| V::new(c.item(i).1)).collect();
                *out = Some(lcc::Stack::from(v))
            }
            _ => unreachable!("{:?}", c.oc),
        }
    }
    fn consume(self, c: &OpX, o: &mut Obs) {
        match c.oc {
            Oc::IntoIter => walk_se(c, "into_iter", self.into_iter(), None, o, |_, v: V| (0, v.tok())),
            _ => unreachable!("{:?}", c.oc),
        }
    }
}

impl OpX {
    pub fn pos(&self) -> usize {
        self.depth_pos(self.len - 1)
    }
    pub fn pos1(&self) -> usize {
        self.depth_pos(self.len)
    }
    // biased towards the top, the bottom and the middle
    fn depth_pos(&self, max: usize) -> usize {
        let r = crate::rng::mix(self.pat) as usize;
        match self.pat >> 12 & 3 {
            0 => max - (r % 4).min(max),
            1 => (r % 4).min(max),
            _ => r % (max + 1),
        }
    }
}

// ---------------------------------------------------------------- catalogue

pub const KINDS: &[&str] = &[
    "avlmap/kl", "btreemap1/kl", "btreemap2/kl", "btreemap3/kl", "btreemap5/kl", "btreemap5/ks", "fixed/ks", "fixed/kl",
    "avlset/kl", "btreeset1/kl", "btreeset2/kl", "btreeset5/ks", "stack", "avlmap/ks", "btreeset3/kl",
    "btreemap8/kl", "btreemap32/ks", "btreeset8/kl",
];
pub fn make(kind: usize) -> Box<dyn Coll> {
    use lcc::btree::btree_set::BTreeSet;
    use lcc::btree::{fixed, BTreeMap};
    match kind {
        0 => Box::new(W(lcc::AvlMap::<KL, V>::new())),
        1 => Box::new(W(BTreeMap::<KL, V, 1>::new())),
        2 => Box::new(W(BTreeMap::<KL, V, 2>::new())),
        3 => Box::new(W(BTreeMap::<KL, V, 3>::new())),
        4 => Box::new(W(BTreeMap::<KL, V, 5>::new())),
        5 => Box::new(W(BTreeMap::<KS, V, 5>::new())),
        6 => Box::new(W(fixed::BTreeMap::<KS, V>::new())),
        7 => Box::new(W(fixed::BTreeMap::<KL, V>::new())),
        8 => Box::new(W(lcc::AvlSet::<KL>::new())),
        9 => Box::new(W(BTreeSet::<KL, 1>::new())),
        10 => Box::new(W(BTreeSet::<KL, 2>::new())),
        11 => Box::new(W(BTreeSet::<KS, 5>::new())),
        12 => Box::new(W(lcc::Stack::<V>::new())),
        13 => Box::new(W(lcc::AvlMap::<KS, V>::new())),
        14 => Box::new(W(BTreeSet::<KL, 3>::new())),
        15 => Box::new(W(BTreeMap::<KL, V, 8>::new())),
        16 => Box::new(W(BTreeMap::<KS, V, 32>::new())),
        17 => Box::new(W(BTreeSet::<KL, 8>::new())),
        _ => panic!("kind"),
    }
}
pub fn fam_of(kind: usize) -> Fam {
    match kind {
        0 | 13 => Fam::Avl,
        1..=5 | 15 | 16 => Fam::BT,
        6 | 7 => Fam::Fixed,
        8 => Fam::AvlSet,
        9 | 10 | 11 | 14 | 17 => Fam::BTSet,
        _ => Fam::Stack,
    }
}

pub fn supports(f: Fam, oc: Oc) -> bool {
    use Oc::*;
    match oc {
        Clone | Drop | Send | Recv | Publish | BoardRead | BoardClone | CurOpen | CurStep | CurDrop | Build | Iter | Clear | Extend | FromIter | IntoIter | OtherTypes => true,
        Get | Insert | Remove => f != Fam::Stack,
        IterMut => !f.is_set(),
        GetMut => f.is_map(),
        Contains | First | Last | Range | RangeBad | Hash | Ser | De | SerDe | Append | SplitOff | PopFirst | PopLast | Retain | FromArr
            if matches!(f, Fam::Avl | Fam::BT | Fam::AvlSet | Fam::BTSet) =>
        {
            !(oc == Hash && f == Fam::BT)
        }
        FromArr => f == Fam::Stack,
        Eq | Cmp | PCmp | Dbg => f != Fam::Fixed,
        GetKv | Keys | Values | RangeMut | RangeMutBad | ValuesMut | EntryOrInsert | EntryOrInsertWith | EntryOrInsertWithKey | EntryOrDefault
        | EntryAndModify | EntryModOrInsert | FirstEntryMod | LastEntryMod | EntryKey | IntoKeys | IntoValues => matches!(f, Fam::Avl | Fam::BT),
        Index | ForEach | RemoveEntry | ForEachMut | NewJoin => f == Fam::Avl,
        ExtendRef => f == Fam::Avl || f.is_set(),
        IntoVec => f == Fam::BT,
        NewUnion | NewInter | NewDiff | NewSym => f == Fam::Avl || f.is_set(),
        SubSet | SuperSet | Disjoint | Diff | Inter | Union | SymDiff | OpAnd | OpOr | OpXor | OpSub | Replace | Take => f.is_set(),
        Top | StkContains | Push | Pop | TopMut | StkRemove | StkSplit | StkRemoveBad | StkSplitBad => f == Fam::Stack,
        _ => false,
    }
}
