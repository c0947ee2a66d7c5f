//! The reference model: one std collection per handle, nothing shared.
use crate::coll::Fam;
use crate::ops::*;
use crate::elem::is_nan;
use crate::sersim;
use std::cmp::Ordering;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Debug)]
pub enum Model {
    Map(BTreeMap<i32, u64>), // sets: all values 0
    Stk(Vec<u64>),           // bottom first
}
use Model::*;

impl Model {
    pub fn new(f: Fam) -> Model {
        if f == Fam::Stack {
            Stk(vec![])
        } else {
            Map(BTreeMap::new())
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Map(m) => m.len(),
            Stk(v) => v.len(),
        }
    }
    /// in the order Coll::contents uses
    pub fn contents(&self) -> Vec<(i32, u64)> {
        match self {
            Map(m) => m.iter().map(|(k, v)| (*k, *v)).collect(),
            Stk(v) => v.iter().map(|t| (0, *t)).collect(),
        }
    }
    pub fn same(&self, c: &[(i32, u64)]) -> bool {
        match self {
            Map(m) => m.len() == c.len() && m.iter().zip(c).all(|((k, v), e)| *k == e.0 && *v == e.1),
            Stk(v) => v.len() == c.len() && v.iter().zip(c).all(|(t, e)| *t == e.1),
        }
    }
    /// in iteration order
    pub fn iter_items(&self) -> Vec<(i32, u64)> {
        match self {
            Map(_) => self.contents(),
            Stk(v) => v.iter().rev().map(|t| (0, *t)).collect(),
        }
    }
    pub fn set_contents(&mut self, c: &[(i32, u64)]) {
        match self {
            Map(m) => *m = c.iter().copied().collect(),
            Stk(v) => *v = c.iter().map(|e| e.1).collect(),
        }
    }
    pub fn map(&mut self) -> &mut BTreeMap<i32, u64> {
        match self {
            Map(m) => m,
            _ => panic!("not a map"),
        }
    }
    pub fn get_map(&self) -> &BTreeMap<i32, u64> {
        match self {
            Map(m) => m,
            _ => panic!("not a map"),
        }
    }
    pub fn add(&mut self, set: bool, k: i32, t: u64) {
        match self {
            Map(m) => {
                m.insert(k, if set { 0 } else { t });
            }
            Stk(v) => v.push(t),
        }
    }
    /// equality and order as iterating both in step gives them, unordered values included
    fn equal(&self, o: &Model, set: bool) -> bool {
        *self == *o && (set || !self.iter_items().iter().any(|e| is_nan(e.1)))
    }
    fn partial(&self, o: &Model, set: bool) -> Option<Ordering> {
        let (a, b) = (self.iter_items(), o.iter_items());
        for (x, y) in a.iter().zip(&b) {
            let c = x.0.cmp(&y.0);
            if c != Ordering::Equal {
                return Some(c);
            }
            if !set {
                if is_nan(x.1) || is_nan(y.1) {
                    return None;
                }
                let c = x.1.cmp(&y.1);
                if c != Ordering::Equal {
                    return Some(c);
                }
            }
        }
        Some(a.len().cmp(&b.len()))
    }
    fn rank(&self) -> Vec<(i32, u64)> {
        self.iter_items()
    }
}

fn algebra(oc: Oc, a: &BTreeMap<i32, u64>, b: &BTreeMap<i32, u64>) -> BTreeMap<i32, u64> {
    let mut r = BTreeMap::new();
    match oc {
        Oc::Diff | Oc::OpSub | Oc::NewDiff => r.extend(a.iter().filter(|e| !b.contains_key(e.0)).map(|(k, v)| (*k, *v))),
        Oc::Inter | Oc::OpAnd | Oc::NewInter => r.extend(a.iter().filter(|e| b.contains_key(e.0)).map(|(k, v)| (*k, *v))),
        Oc::Union | Oc::OpOr | Oc::NewUnion => {
            r = a.clone();
            r.extend(b.iter().map(|(k, v)| (*k, *v)));
        }
        _ => {
            r.extend(a.iter().filter(|e| !b.contains_key(e.0)).map(|(k, v)| (*k, *v)));
            r.extend(b.iter().filter(|e| !a.contains_key(e.0)).map(|(k, v)| (*k, *v)));
        }
    }
    r
}

/// fill in what the operation may be told about the state before it
pub fn prep(m: &Model, other: Option<&Model>, c: &mut OpX) {
    use Oc::*;
    c.len = m.len();
    c.present = matches!(m, Map(x) if x.contains_key(&c.key));
    c.expn = match c.oc {
        Iter | Keys | Values | IterMut | ValuesMut | IntoIter | IntoKeys | IntoValues => m.len(),
        Range | RangeMut => {
            let (lo, hi) = (c.lo, c.hi);
            if inverted(c) {
                0
            } else {
                m.get_map().range((lo, hi)).count()
            }
        }
        Diff | Inter | Union | SymDiff => algebra(c.oc, m.get_map(), other.unwrap().get_map()).len(),
        _ => 0,
    };
}
fn inverted(c: &OpX) -> bool {
    use std::ops::Bound::*;
    matches!((c.lo, c.hi), (Excluded(a), Included(b)) | (Included(a), Excluded(b)) if a >= b)
}

/// apply the first `lim` writes of a mutable walk
fn walk_mut(m: &mut Model, c: &OpX, items: &[(i32, u64)], de: bool, lim: usize, hide: bool, o: &mut Obs) {
    let shown: Vec<_> = if hide { items.iter().map(|e| (0, e.1)).collect() } else { items.to_vec() };
    let y = walk_model(c, &shown, de, o);
    for (i, ix) in y.iter().enumerate().take(lim) {
        let t = c.tok + 1 + i as u64;
        match m {
            Map(x) => {
                x.insert(items[*ix].0, t);
            }
            Stk(v) => {
                let n = v.len();
                v[n - 1 - *ix] = t;
            }
        }
    }
}

pub fn apply(f: Fam, m: &mut Model, other: Option<&mut Model>, c: &OpX, out: &mut Option<Model>, o: &mut Obs) {
    apply_lim(f, m, other, c, out, o, usize::MAX)
}

/// `lim`: effects completed (for failures half-way)
pub fn apply_lim(f: Fam, m: &mut Model, mut other: Option<&mut Model>, c: &OpX, out: &mut Option<Model>, o: &mut Obs, lim: usize) {
    use Oc::*;
    let set = f.is_set();
    let ob = |x: Option<&u64>, o: &mut Obs| o.opt(x.copied());
    match c.oc {
        // ---- reads
        Get => match (set, m.get_map().get(&c.key)) {
            (true, x) => o.opt(x.map(|_| c.key as u64)),
            (false, x) => ob(x, o),
        },
        GetKv => o.okv(m.get_map().get(&c.key).map(|t| (c.key, *t))),
        Contains => o.b(m.get_map().contains_key(&c.key)),
        Index => o.opt(m.get_map().get(&c.key).copied()),
        First => o.okv(m.get_map().iter().next().map(|(k, v)| (*k, *v))),
        Last => o.okv(m.get_map().iter().next_back().map(|(k, v)| (*k, *v))),
        Iter => {
            let de = !matches!(f, Fam::AvlSet | Fam::Stack);
            walk_model(c, &m.iter_items(), de, o);
        }
        Keys => {
            let v: Vec<_> = m.iter_items().iter().map(|e| (e.0, 0)).collect();
            walk_model(c, &v, true, o);
        }
        Values => {
            let v: Vec<_> = m.iter_items().iter().map(|e| (0, e.1)).collect();
            walk_model(c, &v, true, o);
        }
        ForEach => {
            for (k, t) in m.iter_items() {
                o.kv(k, t)
            }
        }
        Range => {
            let v: Vec<_> = m.iter_items().into_iter().filter(|e| c.in_range(e.0)).collect();
            walk_model(c, &v, true, o);
        }
        Eq => {
            let e = m.equal(other.as_ref().unwrap(), set);
            o.b(e);
            o.b(!e);
        }
        Cmp => {
            o.p(crate::coll::ord_i(m.rank().cmp(&other.as_ref().unwrap().rank())));
            o.b(true);
            o.b(true);
        }
        PCmp => {
            let p = m.partial(other.as_ref().unwrap(), set);
            o.p(p.map_or(NONE, crate::coll::ord_i));
            o.b(p.is_some_and(|p| p.is_lt()));
            o.b(p.is_some_and(|p| p.is_le()));
            o.b(p.is_some_and(|p| p.is_gt()));
            o.b(p.is_some_and(|p| p.is_ge()));
        }
        RangeBad | RangeMutBad => o.p(0),
        Hash => (), // compared against a canonical rebuild by the caller
        Dbg => {
            // the text lists exactly the entries, in order
            let mut h = 7;
            for (k, t) in m.iter_items() {
                if f != Fam::Stack {
                    h = crate::rng::mix2(h, k as u64)
                }
                if !set {
                    h = crate::rng::mix2(h, t)
                }
            }
            o.p(h as i64);
            // the rest is compared against a canonical rebuild by the caller
        }
        Ser => {
            o.p(m.len() as i64);
            for (k, t) in m.contents() {
                o.kv(k, t)
            }
        }
        SubSet => o.b(m.get_map().keys().all(|k| other.as_ref().unwrap().get_map().contains_key(k))),
        SuperSet => o.b(other.as_ref().unwrap().get_map().keys().all(|k| m.get_map().contains_key(k))),
        Disjoint => o.b(!m.get_map().keys().any(|k| other.as_ref().unwrap().get_map().contains_key(k))),
        Diff | Inter | Union | SymDiff => {
            let r: Vec<_> = algebra(c.oc, m.get_map(), other.unwrap().get_map()).into_iter().collect();
            walk_model(c, &r, false, o);
        }
        OpAnd | OpOr | OpXor | OpSub => {
            let r = algebra(c.oc, m.get_map(), other.unwrap().get_map());
            for (k, t) in &r {
                o.kv(*k, *t)
            }
            o.p(r.len() as i64);
        }
        Top => match m {
            Stk(v) => ob(v.last(), o),
            _ => unreachable!(),
        },
        StkContains => {
            o.b(false);
            if let Stk(v) = &*m {
                if let Some(t) = v.last() {
                    o.b(!is_nan(*t))
                }
            }
        }
        // ---- one key
        GetMut => {
            let r = m.map().get_mut(&c.key);
            o.opt(r.as_ref().map(|x| **x));
            if let Some(r) = r {
                *r = c.tok
            }
        }
        Insert if set => o.b(m.map().insert(c.key, 0).is_none()),
        Insert => o.opt(m.map().insert(c.key, c.tok)),
        Remove if set => o.b(m.map().remove(&c.key).is_some()),
        Remove => o.opt(m.map().remove(&c.key)),
        RemoveEntry | Take => o.okv(m.map().remove(&c.key).map(|t| (c.key, t))),
        Replace => o.okv(m.map().insert(c.key, 0).map(|t| (c.key, t))),
        PopFirst => o.okv(m.map().pop_first()),
        PopLast => o.okv(m.map().pop_last()),
        EntryOrInsert | EntryOrInsertWith | EntryOrInsertWithKey | EntryOrDefault => {
            let d = if c.oc == EntryOrDefault { crate::elem::DEFAULT_TOK } else { c.tok };
            let was = m.get_map().contains_key(&c.key);
            let v = m.map().entry(c.key).or_insert(d);
            o.opt(Some(*v));
            if c.pat & 1 == 1 {
                *v = c.tok + 1
            }
            if c.oc == EntryOrInsertWithKey {
                o.p(if was { NONE } else { c.key as i64 })
            }
        }
        EntryAndModify => {
            let r = m.map().get_mut(&c.key);
            o.opt(r.as_ref().map(|x| **x));
            if let Some(r) = r {
                *r = c.tok
            }
            o.p(c.key as i64);
        }
        EntryModOrInsert => {
            let r = m.map().get_mut(&c.key);
            let seen = r.as_ref().map(|x| **x);
            if let Some(r) = r {
                *r = c.tok
            }
            o.opt(seen);
            o.opt(Some(*m.map().entry(c.key).or_insert(c.tok + 1)));
        }
        EntryKey => o.p(c.key as i64),
        FirstEntryMod | LastEntryMod => {
            let k = if c.oc == FirstEntryMod { m.get_map().keys().next() } else { m.get_map().keys().next_back() }.copied();
            match k {
                None => o.p(NONE),
                Some(k) => {
                    o.p(k as i64);
                    o.opt(m.map().insert(k, c.tok));
                }
            }
        }
        Push => m.add(false, 0, c.tok),
        Pop => match m {
            Stk(v) => o.opt(v.pop()),
            _ => unreachable!(),
        },
        TopMut => match m {
            Stk(v) => {
                let r = v.last_mut();
                o.opt(r.as_ref().map(|x| **x));
                if let Some(r) = r {
                    *r = c.tok
                }
            }
            _ => unreachable!(),
        },
        // ---- many
        Retain => m.map().retain(|k, t| {
            o.kv(*k, *t);
            if !set && c.retain_writes(*k) {
                *t = c.tok
            }
            c.keep(*k)
        }),
        Clear => match m {
            Map(x) => x.clear(),
            Stk(v) => v.clear(),
        },
        ForEachMut => {
            for (i, (_, v)) in m.map().iter_mut().enumerate() {
                if i >= lim {
                    break;
                }
                o.kv(0, *v);
                *v = c.tok + 1 + i as u64;
            }
            // observation wants keys too
            let ks: Vec<i32> = m.map().keys().copied().collect();
            let n = o.0.len();
            for (i, k) in ks.iter().enumerate().take(lim) {
                let at = n - 2 * ks.len().min(lim) + 2 * i;
                o.0[at] = *k as i64;
            }
        }
        IterMut => {
            let items = m.iter_items();
            walk_mut(m, c, &items, f != Fam::Stack, lim, false, o)
        }
        ValuesMut => {
            let items = m.iter_items();
            walk_mut(m, c, &items, true, lim, true, o)
        }
        RangeMut => {
            let items: Vec<_> = m.iter_items().into_iter().filter(|e| c.in_range(e.0)).collect();
            walk_mut(m, c, &items, true, lim, false, o)
        }
        Extend | ExtendRef => {
            for i in 0..c.n.min(lim) {
                let (k, t) = c.item(i);
                m.add(set, k, t)
            }
        }
        StkRemove => match m {
            Stk(v) => {
                if !v.is_empty() {
                    let at = c.pos();
                    o.opt(Some(v.remove(at)))
                }
            }
            _ => unreachable!(),
        },
        StkSplit => match m {
            Stk(v) => *out = Some(Stk(v.split_off(c.pos1()))),
            _ => unreachable!(),
        },
        StkRemoveBad | StkSplitBad => o.b(true),
        // ---- two handles
        Append => {
            let x = std::mem::take(other.as_mut().unwrap().map());
            m.map().extend(x)
        }
        SplitOff => *out = Some(Map(m.map().split_off(&c.key))),
        NewUnion | NewInter | NewDiff | NewSym => {
            let r = algebra(c.oc, m.get_map(), other.as_ref().unwrap().get_map());
            if c.pat & 1 == 1 {
                other.unwrap().map().clear()
            }
            *m.map() = r;
        }
        NewJoin => {
            let mut hi = other.as_ref().unwrap().get_map().clone();
            if c.pat & 1 == 1 {
                other.unwrap().map().clear()
            }
            let mut hi = hi.split_off(&c.key);
            hi.remove(&c.key);
            m.map().split_off(&c.key);
            m.map().insert(c.key, c.tok);
            m.map().extend(hi);
        }
        // ---- construct
        FromIter | FromArr => {
            let n = match (c.oc, f) {
                (FromArr, Fam::Stack) => c.n,
                (FromArr, _) => {
                    if c.pat & 8 == 0 {
                        4
                    } else {
                        12
                    }
                }
                _ => c.n,
            };
            let mut r = Model::new(f);
            for i in 0..n {
                let (k, t) = c.item(i);
                r.add(set, k, t)
            }
            *out = Some(r);
        }
        De => {
            let items = sersim::de_items(c, set);
            if sersim::de_fail_at(c, items.len()).is_some() {
                o.p(0)
            } else {
                o.p(1);
                let mut r = Model::new(f);
                for (k, t) in items {
                    r.add(set, k, t)
                }
                *out = Some(r);
            }
        }
        SerDe => {
            o.p(1);
            *out = Some(m.clone());
        }
        // ---- consume
        IntoIter => {
            let de = !matches!(f, Fam::AvlSet | Fam::Stack);
            walk_model(c, &m.iter_items(), de, o);
        }
        IntoKeys => {
            let v: Vec<_> = m.iter_items().iter().map(|e| (e.0, 0)).collect();
            walk_model(c, &v, true, o);
        }
        IntoValues => {
            let v: Vec<_> = m.iter_items().iter().map(|e| (0, e.1)).collect();
            walk_model(c, &v, true, o);
        }
        IntoVec => {
            for (k, t) in m.iter_items() {
                o.kv(k, t)
            }
        }
        Clone | Drop | Send | Recv | Publish | BoardRead | BoardClone | CurOpen | CurStep | CurDrop | Build | OtherTypes => unreachable!(),
    }
}
