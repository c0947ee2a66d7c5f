//! Operations of a plan, and the parameters derived from them.
use crate::rng::mix;
use std::ops::Bound;

macro_rules! ops {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum Oc { $($n),* }
        pub const OC_ALL: &[Oc] = &[$(Oc::$n),*];
        impl Oc {
            pub fn name(self) -> &'static str { match self { $(Oc::$n => stringify!($n)),* } }
        }
    };
}
ops! {
    // handle management
    Clone, Drop, Send, Recv, Publish, BoardRead, BoardClone, CurOpen, CurStep, CurDrop, Build,
    // reads
    Get, GetKv, Contains, Index, First, Last, Iter, Keys, Values, ForEach, Range,
    RangeBad, Eq, Cmp, PCmp, Hash, Dbg, Ser,
    SubSet, SuperSet, Disjoint, Diff, Inter, Union, SymDiff, OpAnd, OpOr, OpXor, OpSub,
    Top, StkContains,
    // updates of one key
    GetMut, Insert, Remove, RemoveEntry, PopFirst, PopLast, Replace, Take,
    EntryOrInsert, EntryOrInsertWith, EntryOrInsertWithKey, EntryOrDefault, EntryAndModify,
    EntryModOrInsert, FirstEntryMod, LastEntryMod, EntryKey,
    Push, Pop, TopMut,
    // updates of many
    Retain, Clear, ForEachMut, IterMut, ValuesMut, RangeMut, RangeMutBad, Extend, ExtendRef,
    StkRemove, StkSplit, StkRemoveBad, StkSplitBad,
    // two handles
    Append, SplitOff, NewUnion, NewInter, NewDiff, NewSym, NewJoin,
    // construct
    FromIter, FromArr, De, SerDe,
    // consume
    IntoIter, IntoKeys, IntoValues, IntoVec,
    // a history of its own, over other element types
    OtherTypes,
}
impl Oc {
    pub fn parse(s: &str) -> Option<Oc> {
        OC_ALL.iter().copied().find(|o| o.name() == s)
    }
    pub fn is_read(self) -> bool {
        use Oc::*;
        self >= Get && self <= StkContains
    }
    pub fn is_update1(self) -> bool {
        use Oc::*;
        self >= GetMut && self <= TopMut
    }
    pub fn takes_other(self) -> bool {
        use Oc::*;
        matches!(self, Eq | Cmp | PCmp | SubSet | SuperSet | Disjoint | Diff | Inter | Union | SymDiff | OpAnd | OpOr | OpXor | OpSub)
            || self.takes_other_mut()
    }
    pub fn takes_other_mut(self) -> bool {
        use Oc::*;
        matches!(self, Append | NewUnion | NewInter | NewDiff | NewSym | NewJoin)
    }
    pub fn is_consume(self) -> bool {
        use Oc::*;
        self >= IntoIter && self <= IntoVec
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub uid: u32,
    pub oc: Oc,
    pub a: [u64; 5],
}

/// Everything an operation needs, computed the same way for the real collection and the model.
pub struct OpX {
    pub oc: Oc,
    pub key: i32,
    pub krange: i32,
    pub tok: u64,
    pub pat: u64,
    pub n: usize,
    pub lo: Bound<i32>,
    pub hi: Bound<i32>,
    pub len: usize,     // of the collection before the operation, per the model
    pub present: bool,  // key is present, per the model
    pub expn: usize,    // items an iterator op has to offer, per the model
    pub iter_props: u32,
}

impl OpX {
    pub fn new(op: &Op, krange: i32, nmax: usize) -> OpX {
        let key = (op.a[1] % krange as u64) as i32;
        let k2 = (op.a[4] % krange as u64) as i32;
        let (l, h) = (key.min(k2), key.max(k2));
        let pat = op.a[3];
        let mut lo = match pat >> 56 & 7 {
            0 => Bound::Unbounded,
            1 | 2 | 3 => Bound::Excluded(l),
            _ => Bound::Included(l),
        };
        let hi = match pat >> 60 & 7 {
            0 => Bound::Unbounded,
            1 | 2 | 3 => Bound::Excluded(h),
            _ => Bound::Included(h),
        };
        if let (Bound::Excluded(a), Bound::Excluded(b)) = (lo, hi) {
            if a == b {
                lo = Bound::Included(a); // std panics on (Excluded(x), Excluded(x))
            }
        }
        let n = if nmax == 0 { 0 } else { (op.a[4] % (nmax as u64 + 1)) as usize };
        OpX {
            oc: op.oc,
            key,
            krange,
            tok: (op.uid as u64) << 24,
            pat,
            n,
            lo,
            hi,
            len: 0,
            present: false,
            expn: 0,
            iter_props: 0,
        }
    }
    /// i-th item of a bulk source
    pub fn item(&self, i: usize) -> (i32, u64) {
        let r = self.krange as i64;
        let k = match self.pat & 7 {
            0 | 1 => self.key as i64 + i as i64,
            2 => self.key as i64 - i as i64,
            3 => self.key as i64 + 2 * i as i64,
            4 => self.key as i64 + (mix(self.pat ^ i as u64) % 16) as i64,
            5 => {
                // converging from both ends
                if i % 2 == 0 {
                    i as i64 / 2
                } else {
                    r - 1 - i as i64 / 2
                }
            }
            _ => (mix(self.pat.wrapping_add(i as u64 * 77)) % r as u64) as i64,
        };
        (k.rem_euclid(r) as i32, self.tok + 1 + i as u64)
    }
    pub fn in_range(&self, k: i32) -> bool {
        (match self.lo {
            Bound::Included(l) => k >= l,
            Bound::Excluded(l) => k > l,
            Bound::Unbounded => true,
        }) && (match self.hi {
            Bound::Included(h) => k <= h,
            Bound::Excluded(h) => k < h,
            Bound::Unbounded => true,
        })
    }
    pub fn keep(&self, k: i32) -> bool {
        let h = mix(self.pat ^ (k as u64) << 7);
        match (self.pat >> 16) & 7 {
            0 => false,
            1 => true,
            2 => h % 2 == 0,
            3 => h % 16 != 0,
            4 => h % 16 == 0,
            5 => k < self.key,
            6 => k >= self.key,
            _ => k % 3 != 0,
        }
    }
    pub fn retain_writes(&self, k: i32) -> bool {
        (self.pat >> 20) & 3 == 0 && k % 5 == 0
    }
    /// does the user's closure write the value before it can fail, or after
    pub fn writes_first(&self) -> bool {
        (self.pat >> 45) & 1 == 1
    }
    /// walk plan: number of step attempts
    pub fn steps(&self) -> usize {
        match (self.pat >> 3) & 3 {
            0 => (self.n % (self.expn + 2)).min(self.expn + 1), // abandon somewhere
            _ => self.expn + 2,
        }
    }
    /// 0 front, 1 back, 2 nth(1..3), 3 nth_back, (only 0 for single-ended)
    pub fn dir(&self, i: usize, de: bool) -> (u8, usize) {
        let h = mix(self.pat.wrapping_mul(31).wrapping_add(i as u64));
        let back = match self.pat & 7 {
            0 => false,
            1 => true,
            2 => i % 2 == 1,
            3 | 4 => h & 1 == 1,
            5 => (i / 7) % 2 == 1,
            6 => (i / 3) % 4 == 3,
            _ => i % 3 == 0,
        } && de;
        let nth = (self.pat >> 5) & 3 == 0 && (h >> 8) % 8 == 0;
        let k = if nth { 1 + (h >> 16) as usize % 3 } else { 0 };
        (if back { 1 } else { 0 } + if nth { 2 } else { 0 }, k)
    }
    /// after the steps: 0 drop, 1 fold the rest by value, 2 count by value, 3 rev + fold,
    /// 4 last, 5 search from the front and fold the rest, 6 search from the back and fold
    pub fn finish(&self) -> u8 {
        match (self.pat >> 8) & 7 {
            7 => 0,
            x if x < 3 || self.pat >> 11 & 1 == 1 => x as u8 + 1,
            _ => 0,
        }
    }
    /// item (counted from where the search starts) that a search at the end finds
    pub fn seek(&self) -> usize {
        (mix(self.pat ^ 0x5EEC) % 5) as usize
    }
    /// bounds the wrong way round
    pub fn bad_bounds(&self) -> (Bound<i32>, Bound<i32>) {
        use Bound::*;
        let d = 1 + (self.pat >> 9 & 15) as i32 % 9;
        let (l, h) = (self.key, self.key - d);
        match self.pat >> 13 & 7 {
            0 | 1 => (Included(l), Included(h)),
            2 => (Excluded(l), Included(h)),
            3 => (Included(l), Excluded(h)),
            4 => (Excluded(l), Excluded(h)),
            5 => (Excluded(l), Included(l)),
            6 => (Included(l), Excluded(l)),
            _ => (Excluded(l), Excluded(l)),
        }
    }
}

pub const NONE: i64 = i64::MIN;

#[derive(Default, Clone, PartialEq, Debug)]
pub struct Obs(pub Vec<i64>);
impl Obs {
    pub fn p(&mut self, x: i64) {
        self.0.push(x)
    }
    pub fn b(&mut self, x: bool) {
        self.0.push(x as i64)
    }
    pub fn opt(&mut self, x: Option<u64>) {
        self.0.push(x.map_or(NONE, |x| x as i64))
    }
    pub fn kv(&mut self, k: i32, t: u64) {
        self.0.push(k as i64);
        self.0.push(t as i64);
    }
    pub fn okv(&mut self, x: Option<(i32, u64)>) {
        match x {
            Some((k, t)) => self.kv(k, t),
            None => self.0.push(NONE),
        }
    }
}

/// model side of a walk over `items` (in iteration order): returns items yielded, in step order
pub fn walk_model(c: &OpX, items: &[(i32, u64)], de: bool, o: &mut Obs) -> Vec<usize> {
    let (mut f, mut b) = (0usize, items.len());
    let mut yielded = vec![];
    for i in 0..c.steps() {
        let (d, k) = c.dir(i, de);
        let skip = if d >= 2 { k } else { 0 };
        if d & 1 == 0 {
            f = (f + skip).min(b);
            if f < b {
                o.okv(Some(items[f]));
                yielded.push(f);
                f += 1;
            } else {
                o.p(NONE);
            }
        } else {
            b = b.saturating_sub(skip).max(f);
            if f < b {
                b -= 1;
                o.okv(Some(items[b]));
                yielded.push(b);
            } else {
                o.p(NONE);
            }
        }
    }
    match c.finish() {
        1 => {
            for x in &items[f..b] {
                o.kv(x.0, x.1)
            }
        }
        2 => o.p((b - f) as i64),
        4 => o.okv(if f < b { Some(items[b - 1]) } else { None }),
        5 => {
            let s = c.seek();
            o.okv(if s < b - f { Some(items[f + s]) } else { None });
            for x in &items[(f + s + 1).min(b)..b] {
                o.kv(x.0, x.1)
            }
        }
        6 if de => {
            let s = c.seek();
            o.okv(if s < b - f { Some(items[b - 1 - s]) } else { None });
            for x in &items[f..b.saturating_sub(s + 1).max(f)] {
                o.kv(x.0, x.1)
            }
        }
        3 if de => {
            for x in items[f..b].iter().rev() {
                o.kv(x.0, x.1)
            }
        }
        _ => (),
    }
    yielded
}
