//! A short random history over collections of other element types than the tracked ones, run as
//! one operation: keys that are equal under `Ord` and still distinguishable, borrowed key types,
//! keys and values without size, over-aligned, wide, or owning heap memory; further node widths.
//!
//! Which of two equal keys an insertion keeps is not specified, so the model keeps, for each
//! entry, the set of instances it may be; looking at the entry settles which one it is.
use crate::coll::{hash_of, Fam};
use crate::ctl::*;
use crate::rng::Rng;
use crate::run::last_panic;
use crate::usage;
use lazy_clone_collections as lcc;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Bound;

pub trait Key: Ord + Clone + Debug + Hash + Borrow<Self::Q> + 'static {
    type Q: Ord + ?Sized;
    fn mk(x: u16, tag: u32) -> Self;
    fn tag(&self) -> u32 {
        0
    }
}
pub trait Val: Ord + Clone + Debug + Hash + Default + 'static {
    fn mk(x: u32) -> Self;
}

macro_rules! tagged {
    ($n:ident, $k:ty, $pad:expr) => {
        #[derive(Clone, Debug)]
        pub struct $n {
            k: $k,
            t: u32,
            _pad: [u64; $pad],
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                self.k == o.k
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> Ordering {
                self.k.cmp(&o.k)
            }
        }
        impl Hash for $n {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.k.hash(h)
            }
        }
        impl Key for $n {
            type Q = $n;
            fn mk(x: u16, t: u32) -> Self {
                $n { k: x as $k, t, _pad: [x as u64; $pad] }
            }
            fn tag(&self) -> u32 {
                self.t
            }
        }
    };
}
tagged!(Tag, u16, 0);
tagged!(TagW, u64, 2);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(align(64))]
pub struct Al(u8);

macro_rules! key {
    ($t:ty, $q:ty, $x:ident => $e:expr) => {
        impl Key for $t {
            type Q = $q;
            fn mk($x: u16, _: u32) -> Self {
                $e
            }
        }
    };
}
key!(u8, u8, x => (x as u8).wrapping_mul(37));
key!(String, str, x => "x".repeat((x % 5) as usize) + &x.to_string());
key!((), (), _x => ());
key!(Al, Al, x => Al(x as u8));
key!((bool, Option<u8>), (bool, Option<u8>), x => (x % 2 == 0, if x % 7 == 0 { None } else { Some(x as u8) }));
key!(Vec<u8>, [u8], x => vec![(x % 3) as u8; (x % 40) as usize]);
key!(std::cmp::Reverse<u32>, std::cmp::Reverse<u32>, x => std::cmp::Reverse(x as u32));

impl Val for () {
    fn mk(_: u32) -> Self {}
}
impl Val for u8 {
    fn mk(x: u32) -> Self {
        x as u8
    }
}
impl Val for u32 {
    fn mk(x: u32) -> Self {
        x
    }
}
impl Val for String {
    fn mk(x: u32) -> Self {
        format!("value {x}")
    }
}
impl Val for [u64; 20] {
    fn mk(x: u32) -> Self {
        [x as u64 * 3; 20]
    }
}
impl Val for Box<u32> {
    fn mk(x: u32) -> Self {
        Box::new(x)
    }
}
impl Val for Al {
    fn mk(x: u32) -> Self {
        Al(x as u8)
    }
}
impl Val for Option<std::rc::Rc<u32>> {
    fn mk(x: u32) -> Self {
        if x % 3 == 0 {
            None
        } else {
            Some(std::rc::Rc::new(x))
        }
    }
}

pub struct E(u32, String);
pub type R = Result<(), E>;

pub struct X {
    f: Fam,
    pub r: Rng,
    n: u32,
    pub shared: bool,
    pub len: usize,
    pub kr: u64,
    trace: Vec<&'static str>,
}
impl X {
    fn key<K: Key>(&mut self) -> K {
        self.n += 1;
        let x = self.r.below(self.kr) as u16;
        K::mk(x, self.n)
    }
    fn val<V: Val>(&mut self) -> V {
        self.n += 1;
        V::mk(self.n)
    }
    fn items<K: Key, V: Val>(&mut self) -> Vec<(K, V)> {
        let n = self.r.below(self.kr / 2 + 3);
        let sorted = self.r.below(3);
        let mut v: Vec<(K, V)> = (0..n).map(|_| (self.key(), self.val())).collect();
        match sorted {
            0 => v.sort_by(|a, b| a.0.cmp(&b.0)),
            1 => v.sort_by(|a, b| b.0.cmp(&a.0)),
            _ => (),
        }
        v
    }
    fn op(&mut self, s: &'static str) -> &'static str {
        self.trace.push(s);
        s
    }
    #[cold]
    pub fn bad(&self, extra: &[u8], msg: String) -> E {
        let mut p = pbits(&[self.f.prop()]) | pbits(extra);
        if self.shared {
            p |= pbits(&[1]);
        }
        let t = &self.trace;
        E(p, format!("{msg} (last operations: {})", t[t.len().saturating_sub(8)..].join(", ")))
    }
}
macro_rules! ok {
    ($x:expr, $c:expr, $ps:expr, $($m:tt)*) => {
        if !$c {
            return Err($x.bad($ps, format!($($m)*)));
        }
    };
}
pub(crate) use ok;

/// value, and the instances the key may be
type M<K, V> = BTreeMap<K, (V, Vec<u32>)>;
fn q<K: Key>(k: &K) -> &K::Q {
    k.borrow()
}
fn put<K: Key, V: Val>(m: &mut M<K, V>, k: K, v: V) -> Option<V> {
    let t = k.tag();
    match m.get_mut(q(&k)) {
        Some(e) => {
            e.1.push(t);
            Some(std::mem::replace(&mut e.0, v))
        }
        None => {
            m.insert(k, (v, vec![t]));
            None
        }
    }
}
/// does this key instance fit the entry; if so the entry is settled
fn fits<K: Key>(k: &K, mk: &K, allowed: &mut Vec<u32>) -> bool {
    let t = k.tag();
    let good = k == mk && allowed.contains(&t);
    allowed.clear();
    allowed.push(t);
    good
}
fn same<K: Key, V: Val>(x: &X, m: &mut M<K, V>, got: Option<(&K, &V)>, want: Option<K>, what: &str) -> R {
    match (got, want) {
        (None, None) => Ok(()),
        (Some((k, v)), Some(w)) => {
            let e = m.get_mut(q(&w)).unwrap();
            let before = e.1.clone();
            ok!(x, fits(k, &w, &mut e.1), &[], "{what}: got key {k:?}, expected {w:?} with instance in {before:?}");
            ok!(x, *v == e.0, &[], "{what}: got value {v:?} for {k:?}, expected {:?}", e.0);
            Ok(())
        }
        (g, w) => Err(x.bad(&[], format!("{what}: got {g:?}, expected key {w:?}"))),
    }
}
fn gone<K: Key, V: Val>(x: &X, m: &mut M<K, V>, got: Option<(K, V)>, want: Option<K>, what: &str) -> R {
    same(x, m, got.as_ref().map(|e| (&e.0, &e.1)), want.clone(), what)?;
    if let Some(k) = want {
        m.remove(q(&k));
    }
    Ok(())
}
fn walk<'a, K: Key, V: Val, I>(x: &X, m: &mut M<K, V>, it: I, n: usize, what: &str, ps: &[u8]) -> R
where
    I: Iterator<Item = (&'a K, &'a V)>,
{
    ok!(x, n == m.len(), ps, "{what}: length {n}, expected {}", m.len());
    let mut w = m.iter_mut();
    for (k, v) in it {
        let Some((wk, e)) = w.next() else {
            return Err(x.bad(ps, format!("{what}: extra entry {k:?}")));
        };
        let before = e.1.clone();
        ok!(x, fits(k, wk, &mut e.1), ps, "{what}: got key {k:?}, expected {wk:?} with instance in {before:?}");
        ok!(x, *v == e.0, ps, "{what}: got value {v:?} for {k:?}, expected {:?}", e.0);
    }
    let rest = w.next();
    ok!(x, rest.is_none(), ps, "{what}: entry {rest:?} is missing");
    Ok(())
}
fn bounds<K: Key>(x: &mut X) -> (Bound<K>, Bound<K>) {
    let (a, b) = (x.key::<K>(), x.key::<K>());
    let eq = a == b;
    let (l, h) = if a <= b { (a, b) } else { (b, a) };
    let lo = match x.r.below(4) {
        0 => Bound::Unbounded,
        1 if !eq => Bound::Excluded(l),
        _ => Bound::Included(l),
    };
    let hi = match x.r.below(4) {
        0 => Bound::Unbounded,
        1 if !eq => Bound::Excluded(h),
        _ => Bound::Included(h),
    };
    (lo, hi)
}
fn qref<K: Key>(b: &Bound<K>) -> Bound<&K::Q> {
    match b {
        Bound::Included(k) => Bound::Included(q(k)),
        Bound::Excluded(k) => Bound::Excluded(q(k)),
        Bound::Unbounded => Bound::Unbounded,
    }
}
fn within<K: Key>(k: &K, lo: &Bound<K>, hi: &Bound<K>) -> bool {
    (match lo {
        Bound::Included(l) => k >= l,
        Bound::Excluded(l) => k > l,
        Bound::Unbounded => true,
    }) && match hi {
        Bound::Included(h) => k <= h,
        Bound::Excluded(h) => k < h,
        Bound::Unbounded => true,
    }
}
/// a second handle, removed from the list
fn other<T>(x: &mut X, h: &mut Vec<T>, i: &mut usize) -> Option<T> {
    if h.len() < 2 {
        return None;
    }
    let mut j = x.r.below(h.len() as u64 - 1) as usize;
    if j >= *i {
        j += 1;
    }
    let b = h.remove(j);
    if j < *i {
        *i -= 1;
    }
    Some(b)
}

/// what only one of the maps has
trait Ext<K: Key, V: Val>: Sized {
    fn ext(&mut self, _: u64, _: &mut X, _: &mut M<K, V>, _: Option<&(Self, M<K, V>)>) -> Result<Option<(Self, M<K, V>)>, E> {
        Ok(None)
    }
}
impl<K: Key, V: Val, const N: usize> Ext<K, V> for lcc::btree::BTreeMap<K, V, N> {}
impl<K: Key, V: Val> Ext<K, V> for lcc::AvlMap<K, V> {
    fn ext(&mut self, c: u64, x: &mut X, m: &mut M<K, V>, o: Option<&(Self, M<K, V>)>) -> Result<Option<(Self, M<K, V>)>, E> {
        match c {
            0 => {
                x.op("remove_entry");
                let k: K = x.key();
                let want = m.get_key_value(q(&k)).map(|e| e.0.clone());
                gone(x, m, self.remove_entry(q(&k)), want, "remove_entry")?;
            }
            1 => {
                x.op("for_each");
                let mut seen = vec![];
                self.for_each(|(k, v)| seen.push((k.clone(), v.clone())));
                walk(x, m, seen.iter().map(|e| (&e.0, &e.1)), self.len(), "for_each", &[])?;
            }
            2 => {
                x.op("for_each_mut");
                let vs: Vec<V> = (0..self.len()).map(|_| x.val()).collect();
                let mut i = vs.iter();
                self.for_each_mut(|(_, v)| *v = i.next().unwrap().clone());
                for (e, v) in m.values_mut().zip(vs) {
                    e.0 = v
                }
            }
            3 => {
                x.op("index");
                if let Some((k, e)) = m.iter().next() {
                    ok!(x, self[q(k)] == e.0, &[], "index: got {:?} for {k:?}", self[q(k)]);
                }
            }
            _ => {
                let Some((b, mb)) = o else { return Ok(None) };
                let (a2, b2) = (self.clone(), b.clone());
                x.shared = true;
                let mut n = M::new();
                let r = match c {
                    5 => {
                        x.op("new_join");
                        let (k, v): (K, V) = (x.key(), x.val());
                        let mut lo = a2;
                        let mut hi = lo.split_off(q(&k));
                        hi.remove(q(&k));
                        let mut n = m.clone();
                        n.remove(q(&k));
                        put(&mut n, k.clone(), v.clone());
                        return Ok(Some((Self::new_join(lo, k, v, hi), n)));
                    }
                    4 => {
                        x.op("new_union");
                        Self::new_union(a2, b2)
                    }
                    6 => {
                        x.op("new_intersect");
                        Self::new_intersect(a2, b2)
                    }
                    7 => {
                        x.op("new_diff");
                        Self::new_diff(a2, b2)
                    }
                    _ => {
                        x.op("new_sym_diff");
                        Self::new_sym_diff(a2, b2)
                    }
                };
                let both = |k: &K| m.contains_key(q(k)) && mb.contains_key(q(k));
                // which side's value survives is judged on the tracked elements; here the
                // result is only taken apart by where a key comes from
                for (k, e) in m.iter().chain(mb.iter()) {
                    let keep = match c {
                        4 => true,
                        6 => both(k),
                        7 => !mb.contains_key(q(k)),
                        _ => !both(k),
                    };
                    if keep {
                        let t = n.entry(k.clone()).or_insert_with(|| (e.0.clone(), vec![]));
                        t.1.extend(&e.1);
                        if let Some(v) = r.get(q(k)) {
                            if *v == e.0 {
                                t.0 = v.clone()
                            }
                        }
                    }
                }
                return Ok(Some((r, n)));
            }
        }
        Ok(None)
    }
}

macro_rules! map_side {
    ($f:ident, [$($g:tt)*], $t:ty) => {
        fn $f<K: Key, V: Val, $($g)*>(x: &mut X) -> R {
            let mut h: Vec<($t, M<K, V>)> = vec![];
            {
                let v = x.items::<K, V>();
                let mut m = M::new();
                for (k, v) in &v {
                    put(&mut m, k.clone(), v.clone());
                }
                h.push((v.into_iter().collect(), m));
            }
            for _ in 0..x.len {
                let mut i = x.r.below(h.len() as u64) as usize;
                let k: K = x.key();
                match x.r.below(38) {
                    0..=3 => {
                        x.op("insert");
                        let v: V = x.val();
                        let (a, m) = &mut h[i];
                        let (g, w) = (a.insert(k.clone(), v.clone()), put(m, k.clone(), v));
                        ok!(x, g == w, &[], "insert({k:?}): got {g:?}, expected {w:?}");
                    }
                    4 | 5 => {
                        x.op("remove");
                        let (a, m) = &mut h[i];
                        let (g, w) = (a.remove(q(&k)), m.remove(q(&k)).map(|e| e.0));
                        ok!(x, g == w, &[], "remove({k:?}): got {g:?}, expected {w:?}");
                    }
                    6 => {
                        x.op("get_mut");
                        let v: V = x.val();
                        let (a, m) = &mut h[i];
                        match (a.get_mut(q(&k)), m.get_mut(q(&k))) {
                            (Some(p), Some(e)) => {
                                ok!(x, *p == e.0, &[], "get_mut({k:?}): got {p:?}, expected {:?}", e.0);
                                *p = v.clone();
                                e.0 = v;
                            }
                            (p, e) => ok!(x, p.is_none() && e.is_none(), &[], "get_mut({k:?}): got {p:?}, expected {e:?}"),
                        }
                    }
                    7 => {
                        x.op("get");
                        let (a, m) = &mut h[i];
                        let g = a.get(q(&k));
                        ok!(x, g == m.get(q(&k)).map(|e| &e.0), &[], "get({k:?}): got {g:?}");
                        ok!(x, a.contains_key(q(&k)) == g.is_some(), &[], "contains_key({k:?})");
                        let want = m.get_key_value(q(&k)).map(|e| e.0.clone());
                        same(x, m, a.get_key_value(q(&k)), want, "get_key_value")?;
                    }
                    8 => {
                        x.op("first, last");
                        let (a, m) = &mut h[i];
                        let (f, l) = (m.keys().next().cloned(), m.keys().next_back().cloned());
                        same(x, m, a.first_key_value(), f, "first_key_value")?;
                        same(x, m, a.last_key_value(), l, "last_key_value")?;
                    }
                    9 => {
                        x.op("pop_first");
                        let (a, m) = &mut h[i];
                        let f = m.keys().next().cloned();
                        gone(x, m, a.pop_first(), f, "pop_first")?;
                    }
                    10 => {
                        x.op("pop_last");
                        let (a, m) = &mut h[i];
                        let f = m.keys().next_back().cloned();
                        gone(x, m, a.pop_last(), f, "pop_last")?;
                    }
                    11 | 12 => {
                        x.op("entry");
                        let (v, v2): (V, V) = (x.val(), x.val());
                        let (a, m) = &mut h[i];
                        let t = k.tag();
                        let (g, w) = match x.r.below(3) {
                            0 => (a.entry(k.clone()).or_insert(v.clone()), v),
                            1 => (a.entry(k.clone()).and_modify(|e| *e = v2.clone()).or_insert_with(|| v.clone()), if m.contains_key(q(&k)) { v2.clone() } else { v }),
                            _ => (a.entry(k.clone()).or_default(), V::default()),
                        };
                        let was = m.contains_key(q(&k));
                        let e = m.entry(k.clone()).or_insert_with(|| (w.clone(), vec![]));
                        e.1.push(t);
                        if was && w == v2 && *g == v2 {
                            e.0 = v2.clone();
                        }
                        ok!(x, *g == e.0, &[], "entry({k:?}): got {g:?}, expected {:?}", e.0);
                        *g = v2.clone();
                        e.0 = v2;
                    }
                    13 | 14 => {
                        x.op("extend");
                        let v = x.items::<K, V>();
                        let (a, m) = &mut h[i];
                        for (k, v) in &v {
                            put(m, k.clone(), v.clone());
                        }
                        a.extend(v);
                    }
                    15 | 16 => {
                        x.op("append");
                        if let Some((mut b, mb)) = other(x, &mut h, &mut i) {
                            let (a, m) = &mut h[i];
                            a.append(&mut b);
                            for (k, (v, ts)) in mb {
                                match m.get_mut(q(&k)) {
                                    Some(e) => {
                                        e.0 = v;
                                        e.1.extend(ts);
                                    }
                                    None => {
                                        m.insert(k, (v, ts));
                                    }
                                }
                            }
                            ok!(x, b.is_empty(), &[], "append: the second operand is not empty");
                            h.push((b, M::new()));
                        }
                    }
                    17 => {
                        x.op("split_off");
                        let (a, m) = &mut h[i];
                        let b = a.split_off(q(&k));
                        let mb = m.split_off(q(&k));
                        h.push((b, mb));
                    }
                    18 => {
                        x.op("retain");
                        let s = x.r.u64();
                        let v: V = x.val();
                        let (a, m) = &mut h[i];
                        let mut seen = vec![];
                        let keep = |i: usize| s >> (i % 61) & 1 == 1;
                        a.retain(|k, e| {
                            seen.push(k.clone());
                            if seen.len() % 3 == 0 {
                                *e = v.clone()
                            }
                            keep(seen.len())
                        });
                        ok!(x, seen.iter().eq(m.keys()), &[], "retain: visited {seen:?}");
                        for ((k, e), wk) in m.iter_mut().zip(&seen) {
                            ok!(x, fits(wk, k, &mut e.1), &[], "retain: showed another instance of {k:?}");
                        }
                        let mut n = 0;
                        m.retain(|_, e| {
                            n += 1;
                            if n % 3 == 0 {
                                e.0 = v.clone()
                            }
                            keep(n)
                        });
                    }
                    19..=22 => {
                        x.op("clone");
                        x.shared = true;
                        let c = if x.r.pct(20) && h.len() > 1 {
                            let mut c = other(x, &mut h, &mut i).unwrap().0;
                            c.clone_from(&h[i].0);
                            c
                        } else {
                            h[i].0.clone()
                        };
                        let m = h[i].1.clone();
                        h.push((c, m));
                    }
                    23 => {
                        x.op("drop");
                        if h.len() > 1 {
                            h.swap_remove(i);
                        }
                    }
                    24 => {
                        x.op("iter");
                        let (a, m) = &mut h[i];
                        walk(x, m, a.iter(), a.iter().len(), "iter", &[8])?;
                        let mut back: Vec<_> = a.iter().rev().collect();
                        back.reverse();
                        walk(x, m, back.into_iter(), a.len(), "iter from the back", &[8])?;
                        ok!(x, a.keys().eq(m.keys()) && a.values().eq(m.values().map(|e| &e.0)), &[8], "keys, values");
                    }
                    25 => {
                        x.op("iter_mut");
                        let take = x.r.below(h[i].0.len() as u64 + 2) as usize;
                        let back = x.r.pct(50);
                        let vs: Vec<V> = (0..take).map(|_| x.val()).collect();
                        let (a, m) = &mut h[i];
                        if back {
                            for ((_, p), v) in a.iter_mut().rev().zip(&vs) {
                                *p = v.clone()
                            }
                            for (e, v) in m.values_mut().rev().zip(vs) {
                                e.0 = v
                            }
                        } else {
                            for ((_, p), v) in a.iter_mut().zip(&vs) {
                                *p = v.clone()
                            }
                            for (e, v) in m.values_mut().zip(vs) {
                                e.0 = v
                            }
                        }
                    }
                    26 => {
                        x.op("values_mut");
                        let v: V = x.val();
                        let (a, m) = &mut h[i];
                        a.values_mut().for_each(|p| *p = v.clone());
                        m.values_mut().for_each(|e| e.0 = v.clone());
                    }
                    27 | 28 => {
                        x.op("range");
                        let (lo, hi) = bounds::<K>(x);
                        let (a, m) = &mut h[i];
                        let g: Vec<_> = a.range::<K::Q, _>((qref(&lo), qref(&hi))).collect();
                        let w: Vec<_> = m.iter_mut().filter(|e| within(e.0, &lo, &hi)).collect();
                        ok!(x, g.len() == w.len() && g.iter().zip(w).all(|(g, w)| fits(g.0, w.0, &mut w.1.1) && *g.1 == w.1.0), &[16], "range {lo:?} {hi:?}: got {g:?}");
                        let n = g.len();
                        let b: Vec<_> = a.range::<K::Q, _>((qref(&lo), qref(&hi))).rev().collect();
                        ok!(x, b.iter().rev().eq(g.iter()) && b.len() == n, &[16], "range {lo:?} {hi:?}: from the back {b:?}, from the front {g:?}");
                    }
                    29 => {
                        x.op("range_mut");
                        let (lo, hi) = bounds::<K>(x);
                        let v: V = x.val();
                        let (a, m) = &mut h[i];
                        let mut n = 0;
                        for (k, p) in a.range_mut::<K::Q, _>((qref(&lo), qref(&hi))) {
                            ok!(x, within(k, &lo, &hi), &[16], "range_mut {lo:?} {hi:?}: got {k:?}");
                            *p = v.clone();
                            n += 1;
                        }
                        for (k, e) in m.iter_mut() {
                            if within(k, &lo, &hi) {
                                e.0 = v.clone();
                                n -= 1;
                            }
                        }
                        ok!(x, n == 0, &[16], "range_mut {lo:?} {hi:?}: {n} entries too many");
                    }
                    30 => {
                        x.op("into_iter");
                        if x.r.pct(50) {
                            x.shared = true;
                            let c = (h[i].0.clone(), h[i].1.clone());
                            h.push(c);
                        }
                        let (a, mut m) = std::mem::replace(&mut h[i], (<$t>::default(), M::new()));
                        match x.r.below(4) {
                            0 => {
                                let n = a.len();
                                let v: Vec<_> = a.into_iter().collect();
                                walk(x, &mut m, v.iter().map(|e| (&e.0, &e.1)), n, "into_iter", &[8])?;
                            }
                            1 => ok!(x, a.into_keys().eq(m.keys().cloned()), &[8], "into_keys"),
                            2 => ok!(x, a.into_values().eq(m.values().map(|e| e.0.clone())), &[8], "into_values"),
                            _ => {
                                let j = x.r.below(m.len() as u64 + 1) as usize;
                                let (mut it, mut w) = (a.into_iter(), m.into_iter());
                                for _ in 0..j {
                                    let (g, e) = if x.r.pct(50) { (it.next(), w.next()) } else { (it.next_back(), w.next_back()) };
                                    let (Some(g), Some(e)) = (g, e) else {
                                        return Err(x.bad(&[8], "into_iter ends early".into()));
                                    };
                                    ok!(x, g.0 == e.0 && g.1 == e.1.0 && e.1.1.contains(&g.0.tag()), &[8], "into_iter: got {g:?}, expected {e:?}");
                                }
                                ok!(x, it.len() == w.len(), &[8], "into_iter: len {}, expected {}", it.len(), w.len());
                            }
                        }
                    }
                    31 => {
                        x.op("compare");
                        if let Some((b, mb)) = other(x, &mut h, &mut i) {
                            let (a, m) = &h[i];
                            let (p, w) = (|| m.iter().map(|e| (e.0, &e.1.0)), || mb.iter().map(|e| (e.0, &e.1.0)));
                            ok!(x, (*a == b) == p().eq(w()), &[12], "== on {m:?} and {mb:?}");
                            ok!(x, a.partial_cmp(&b) == p().partial_cmp(w()), &[12], "partial_cmp on {m:?} and {mb:?}");
                            h.push((b, mb));
                        }
                    }
                    32 => {
                        x.op("fmt");
                        let (a, m) = &mut h[i];
                        walk(x, m, a.iter(), a.len(), "iter", &[8])?;
                        let w = format!("{:?}", a.iter().collect::<BTreeMap<_, _>>());
                        let g = format!("{a:?}");
                        ok!(x, g.contains(&w), &[12], "Debug gives {g}, expected {w}");
                    }
                    33 => {
                        x.op("clear");
                        if x.r.pct(30) {
                            h[i].0.clear();
                            h[i].1.clear();
                        }
                    }
                    _ => {
                        let c = x.r.below(10);
                        let o = if c > 3 { other(x, &mut h, &mut i) } else { None };
                        let (a, m) = &mut h[i];
                        let n = a.ext(c, x, m, o.as_ref())?;
                        h.extend(o);
                        h.extend(n);
                    }
                }
                // any handle may be looked at now; entries get settled at random times
                let j = x.r.below(h.len() as u64 * 2) as usize;
                if j < h.len() {
                    let (a, m) = &mut h[j];
                    ok!(x, a.is_empty() == m.is_empty(), &[], "is_empty");
                    walk(x, m, a.iter(), a.len(), "contents", &[])?;
                    if let Err(e) = lcc::Map::check(a) {
                        return Err(x.bad(&[5], format!("not a valid tree: {e}")));
                    }
                }
                while h.len() > 4 {
                    let i = x.r.below(h.len() as u64) as usize;
                    h.swap_remove(i);
                }
            }
            for (a, m) in &mut h {
                walk(x, m, a.iter(), a.len(), "contents", &[])?;
            }
            Ok(())
        }
    };
}
map_side!(avl_map, [], lcc::AvlMap<K, V>);
map_side!(bt_map, [const N: usize], lcc::btree::BTreeMap<K, V, N>);

type S<K> = M<K, ()>;
fn see<'a, K: Key>(x: &X, m: &mut S<K>, it: impl Iterator<Item = &'a K>, n: usize, what: &str, ps: &[u8]) -> R {
    walk(x, m, it.map(|k| (k, &())), n, what, ps)
}
fn one<K: Key>(x: &X, m: &mut S<K>, got: Option<&K>, want: Option<K>, what: &str) -> R {
    same(x, m, got.map(|k| (k, &())), want, what)
}
/// the model of a set operation: 0 union, 1 intersection, 2 difference, 3 symmetric difference
fn algebra<K: Key>(c: u64, m: &S<K>, mb: &S<K>) -> S<K> {
    let mut n = S::new();
    for (k, e) in m.iter().chain(mb.iter()) {
        let both = m.contains_key(q(k)) && mb.contains_key(q(k));
        let keep = match c {
            0 => true,
            1 => both,
            2 => !mb.contains_key(q(k)),
            _ => !both,
        };
        if keep {
            n.entry(k.clone()).or_default().1.extend(&e.1);
        }
    }
    n
}
macro_rules! set_side {
    ($f:ident, [$($g:tt)*], $t:ty) => {
        fn $f<K: Key, $($g)*>(x: &mut X) -> R {
            let mut h: Vec<($t, S<K>)> = vec![];
            for _ in 0..2 {
                let v = x.items::<K, ()>();
                let mut m = S::new();
                for (k, _) in &v {
                    put(&mut m, k.clone(), ());
                }
                h.push((v.into_iter().map(|e| e.0).collect(), m));
            }
            for _ in 0..x.len {
                let mut i = x.r.below(h.len() as u64) as usize;
                let k: K = x.key();
                match x.r.below(38) {
                    0..=3 => {
                        x.op("insert");
                        let (a, m) = &mut h[i];
                        let (g, w) = (a.insert(k.clone()), put(m, k.clone(), ()).is_none());
                        ok!(x, g == w, &[], "insert({k:?}): got {g:?}, expected {w:?}");
                    }
                    4..=6 => {
                        x.op("replace");
                        let (a, m) = &mut h[i];
                        let want = m.get_key_value(q(&k)).map(|e| e.0.clone());
                        let g = a.replace(k.clone());
                        gone(x, m, g.map(|k| (k, ())), want, "replace")?;
                        put(m, k, ());
                    }
                    7 => {
                        x.op("take");
                        let (a, m) = &mut h[i];
                        let want = m.get_key_value(q(&k)).map(|e| e.0.clone());
                        let g = a.take(q(&k));
                        gone(x, m, g.map(|k| (k, ())), want, "take")?;
                    }
                    8 => {
                        x.op("remove");
                        let (a, m) = &mut h[i];
                        let (g, w) = (a.remove(q(&k)), m.remove(q(&k)).is_some());
                        ok!(x, g == w, &[], "remove({k:?}): got {g:?}, expected {w:?}");
                    }
                    9 => {
                        x.op("get");
                        let (a, m) = &mut h[i];
                        let want = m.get_key_value(q(&k)).map(|e| e.0.clone());
                        ok!(x, a.contains(q(&k)) == want.is_some(), &[], "contains({k:?})");
                        one(x, m, a.get(q(&k)), want, "get")?;
                    }
                    10 => {
                        x.op("first, last");
                        let (a, m) = &mut h[i];
                        let (f, l) = (m.keys().next().cloned(), m.keys().next_back().cloned());
                        one(x, m, a.first(), f, "first")?;
                        one(x, m, a.last(), l, "last")?;
                    }
                    11 => {
                        x.op("pop_first");
                        let (a, m) = &mut h[i];
                        let f = m.keys().next().cloned();
                        gone(x, m, a.pop_first().map(|k| (k, ())), f, "pop_first")?;
                    }
                    12 => {
                        x.op("pop_last");
                        let (a, m) = &mut h[i];
                        let f = m.keys().next_back().cloned();
                        gone(x, m, a.pop_last().map(|k| (k, ())), f, "pop_last")?;
                    }
                    13 => {
                        x.op("extend");
                        let v = x.items::<K, ()>();
                        let (a, m) = &mut h[i];
                        for (k, _) in &v {
                            put(m, k.clone(), ());
                        }
                        a.extend(v.into_iter().map(|e| e.0));
                    }
                    14 | 15 => {
                        x.op("append");
                        if let Some((mut b, mb)) = other(x, &mut h, &mut i) {
                            let (a, m) = &mut h[i];
                            a.append(&mut b);
                            *m = algebra(0, m, &mb);
                            ok!(x, b.is_empty(), &[], "append: the second operand is not empty");
                            h.push((b, S::new()));
                        }
                    }
                    16 => {
                        x.op("split_off");
                        let (a, m) = &mut h[i];
                        let b = a.split_off(q(&k));
                        let mb = m.split_off(q(&k));
                        h.push((b, mb));
                    }
                    17 => {
                        x.op("retain");
                        let s = x.r.u64();
                        let (a, m) = &mut h[i];
                        let mut seen = vec![];
                        let keep = |i: usize| s >> (i % 61) & 1 == 1;
                        a.retain(|k| {
                            seen.push(k.clone());
                            keep(seen.len())
                        });
                        ok!(x, seen.iter().eq(m.keys()), &[], "retain: visited {seen:?}");
                        for ((k, e), wk) in m.iter_mut().zip(&seen) {
                            ok!(x, fits(wk, k, &mut e.1), &[], "retain: showed another instance of {k:?}");
                        }
                        let mut n = 0;
                        m.retain(|_, _| {
                            n += 1;
                            keep(n)
                        });
                    }
                    18..=20 => {
                        x.op("clone");
                        x.shared = true;
                        let c = if x.r.pct(20) && h.len() > 1 {
                            let mut c = other(x, &mut h, &mut i).unwrap().0;
                            c.clone_from(&h[i].0);
                            c
                        } else {
                            h[i].0.clone()
                        };
                        let m = h[i].1.clone();
                        h.push((c, m));
                    }
                    21 => {
                        x.op("drop");
                        if h.len() > 1 {
                            h.swap_remove(i);
                        }
                    }
                    22 => {
                        x.op("iter");
                        let (a, m) = &mut h[i];
                        see(x, m, a.iter(), a.iter().len(), "iter", &[8])?;
                    }
                    23 | 24 => {
                        x.op("range");
                        let (lo, hi) = bounds::<K>(x);
                        let (a, m) = &mut h[i];
                        let g: Vec<&K> = a.range::<K::Q, _>((qref(&lo), qref(&hi))).collect();
                        let w: Vec<_> = m.iter_mut().filter(|e| within(e.0, &lo, &hi)).collect();
                        ok!(x, g.len() == w.len() && g.iter().zip(w).all(|(g, w)| fits(*g, w.0, &mut w.1.1)), &[16], "range {lo:?} {hi:?}: got {g:?}");
                    }
                    25 => {
                        x.op("into_iter");
                        if x.r.pct(50) {
                            x.shared = true;
                            let c = (h[i].0.clone(), h[i].1.clone());
                            h.push(c);
                        }
                        let (a, mut m) = std::mem::replace(&mut h[i], (<$t>::default(), S::new()));
                        let n = a.len();
                        let v: Vec<K> = a.into_iter().collect();
                        see(x, &mut m, v.iter(), n, "into_iter", &[8])?;
                    }
                    26 => {
                        x.op("compare");
                        if let Some((b, mb)) = other(x, &mut h, &mut i) {
                            let (a, m) = &h[i];
                            ok!(x, (*a == b) == m.keys().eq(mb.keys()), &[12], "== on {m:?} and {mb:?}");
                            ok!(x, a.cmp(&b) == m.keys().cmp(mb.keys()), &[12], "cmp on {m:?} and {mb:?}");
                            ok!(x, *a != b || hash_of(a) == hash_of(&b), &[12], "equal sets hash differently: {m:?}");
                            h.push((b, mb));
                        }
                    }
                    27 => {
                        x.op("fmt");
                        let (a, m) = &mut h[i];
                        see(x, m, a.iter(), a.len(), "iter", &[8])?;
                        let w = format!("{:?}", a.iter().collect::<std::collections::BTreeSet<_>>());
                        let g = format!("{a:?}");
                        ok!(x, g.contains(&w), &[12], "Debug gives {g}, expected {w}");
                    }
                    28 | 29 => {
                        x.op("subset, disjoint");
                        if let Some((b, mb)) = other(x, &mut h, &mut i) {
                            let (a, m) = &h[i];
                            ok!(x, a.is_subset(&b) == m.keys().all(|k| mb.contains_key(q(k))), &[], "is_subset on {m:?} and {mb:?}");
                            ok!(x, a.is_superset(&b) == mb.keys().all(|k| m.contains_key(q(k))), &[], "is_superset on {m:?} and {mb:?}");
                            ok!(x, a.is_disjoint(&b) != m.keys().any(|k| mb.contains_key(q(k))), &[], "is_disjoint on {m:?} and {mb:?}");
                            h.push((b, mb));
                        }
                    }
                    30..=32 => {
                        if let Some((b, mb)) = other(x, &mut h, &mut i) {
                            let (a, m) = &h[i];
                            let c = x.r.below(4);
                            let v: Vec<K> = match c {
                                0 => {
                                    x.op("union");
                                    a.union(&b).cloned().collect()
                                }
                                1 => {
                                    x.op("intersection");
                                    a.intersection(&b).cloned().collect()
                                }
                                2 => {
                                    x.op("difference");
                                    a.difference(&b).cloned().collect()
                                }
                                _ => {
                                    x.op("symmetric_difference");
                                    a.symmetric_difference(&b).cloned().collect()
                                }
                            };
                            see(x, &mut algebra(c, m, &mb), v.iter(), v.len(), "set operation", &[])?;
                            h.push((b, mb));
                        }
                    }
                    33..=36 => {
                        if let Some((b, mb)) = other(x, &mut h, &mut i) {
                            let (a, m) = &h[i];
                            x.shared = true;
                            let c = x.r.below(4);
                            let n = algebra(c, m, &mb);
                            let s: $t = match (c, x.r.pct(50)) {
                                (0, false) => {
                                    x.op("|");
                                    a | &b
                                }
                                (1, false) => {
                                    x.op("&");
                                    a & &b
                                }
                                (2, false) => {
                                    x.op("-");
                                    a - &b
                                }
                                (_, false) => {
                                    x.op("^");
                                    a ^ &b
                                }
                                (0, _) => {
                                    x.op("new_union");
                                    <$t>::new_union(a.clone(), b.clone())
                                }
                                (1, _) => {
                                    x.op("new_intersection");
                                    <$t>::new_intersection(a.clone(), b.clone())
                                }
                                (2, _) => {
                                    x.op("new_diff");
                                    <$t>::new_diff(a.clone(), b.clone())
                                }
                                (_, _) => {
                                    x.op("new_sym_diff");
                                    <$t>::new_sym_diff(a.clone(), b.clone())
                                }
                            };
                            h.push((b, mb));
                            h.push((s, n));
                        }
                    }
                    _ => {
                        x.op("clear");
                        if x.r.pct(30) {
                            h[i].0.clear();
                            h[i].1.clear();
                        }
                    }
                }
                let j = x.r.below(h.len() as u64 * 2) as usize;
                if j < h.len() {
                    let (a, m) = &mut h[j];
                    ok!(x, a.is_empty() == m.is_empty(), &[], "is_empty");
                    see(x, m, a.iter(), a.len(), "contents", &[])?;
                    if let Err(e) = lcc::Set::check(a) {
                        return Err(x.bad(&[5], format!("not a valid tree: {e}")));
                    }
                }
                while h.len() > 4 {
                    let i = x.r.below(h.len() as u64) as usize;
                    h.swap_remove(i);
                }
            }
            for (a, m) in &mut h {
                see(x, m, a.iter(), a.len(), "contents", &[])?;
            }
            Ok(())
        }
    };
}
set_side!(avl_set, [], lcc::AvlSet<K>);
set_side!(bt_set, [const N: usize], lcc::btree::btree_set::BTreeSet<K, N>);

fn fixed<K: Key, V: Val>(x: &mut X) -> R {
    type T<K, V> = lcc::btree::fixed::BTreeMap<K, V>;
    let v = x.items::<K, V>();
    let mut m = M::new();
    for (k, v) in &v {
        put(&mut m, k.clone(), v.clone());
    }
    let mut h: Vec<(T<K, V>, M<K, V>)> = vec![(v.into_iter().collect(), m)];
    for _ in 0..x.len {
        let i = x.r.below(h.len() as u64) as usize;
        let k: K = x.key();
        let v: V = x.val();
        let back = x.r.pct(50);
        match x.r.below(18) {
            0..=3 => {
                x.op("insert");
                let (a, m) = &mut h[i];
                let (g, w) = (a.insert(k.clone(), v.clone()), put(m, k.clone(), v));
                ok!(x, g == w, &[], "insert({k:?}): got {g:?}, expected {w:?}");
            }
            4..=6 => {
                x.op("remove");
                let (a, m) = &mut h[i];
                let (g, w) = (a.remove(q(&k)), m.remove(q(&k)).map(|e| e.0));
                ok!(x, g == w, &[], "remove({k:?}): got {g:?}, expected {w:?}");
            }
            7 => {
                x.op("get, get_mut");
                let (a, m) = &mut h[i];
                let g = a.get(q(&k));
                ok!(x, g == m.get(q(&k)).map(|e| &e.0), &[], "get({k:?}): got {g:?}");
                if let (Some(p), Some(e)) = (a.get_mut(q(&k)), m.get_mut(q(&k))) {
                    *p = v.clone();
                    e.0 = v;
                }
            }
            8 => {
                x.op("extend");
                let v = x.items::<K, V>();
                let (a, m) = &mut h[i];
                for (k, v) in &v {
                    put(m, k.clone(), v.clone());
                }
                a.extend(v);
            }
            9..=12 => {
                x.op("clone");
                x.shared = true;
                let c = (h[i].0.clone(), h[i].1.clone());
                h.push(c);
            }
            13 => {
                x.op("iter");
                let (a, m) = &mut h[i];
                walk(x, m, a.iter(), a.iter().len(), "iter", &[8])?;
                let mut back: Vec<_> = a.iter().rev().collect();
                back.reverse();
                walk(x, m, back.into_iter(), a.len(), "iter from the back", &[8])?;
            }
            14 => {
                x.op("iter_mut");
                let n = x.r.below(h[i].0.len() as u64 + 2) as usize;
                let (a, m) = &mut h[i];
                if back {
                    a.iter_mut().rev().take(n).for_each(|(_, p)| *p = v.clone());
                    m.values_mut().rev().take(n).for_each(|e| e.0 = v.clone());
                } else {
                    a.iter_mut().take(n).for_each(|(_, p)| *p = v.clone());
                    m.values_mut().take(n).for_each(|e| e.0 = v.clone());
                }
            }
            15 | 16 => {
                x.op("into_iter");
                if back {
                    x.shared = true;
                    let c = (h[i].0.clone(), h[i].1.clone());
                    h.push(c);
                }
                let (a, m) = std::mem::replace(&mut h[i], (T::new(), M::new()));
                let j = x.r.below(m.len() as u64 + 1) as usize;
                let (mut it, mut w) = (a.into_iter(), m.into_iter());
                for _ in 0..j {
                    let (g, e) = if x.r.pct(50) { (it.next(), w.next()) } else { (it.next_back(), w.next_back()) };
                    let (Some(g), Some(e)) = (g, e) else {
                        return Err(x.bad(&[8], "into_iter ends early".into()));
                    };
                    ok!(x, g.0 == e.0 && g.1 == e.1 .0 && e.1 .1.contains(&g.0.tag()), &[8], "into_iter: got {g:?}, expected {e:?}");
                }
                ok!(x, it.len() == w.len(), &[8], "into_iter: len {}, expected {}", it.len(), w.len());
            }
            _ => {
                x.op("drop, clear");
                if h.len() > 1 {
                    h.swap_remove(i);
                } else if back {
                    h[i].0.clear();
                    h[i].1.clear();
                }
            }
        }
        let j = x.r.below(h.len() as u64 * 2) as usize;
        if j < h.len() {
            let (a, m) = &mut h[j];
            ok!(x, a.is_empty() == m.is_empty(), &[], "is_empty");
            walk(x, m, a.iter(), a.len(), "contents", &[])?;
        }
        while h.len() > 4 {
            let i = x.r.below(h.len() as u64) as usize;
            h.swap_remove(i);
        }
    }
    for (a, m) in &mut h {
        walk(x, m, a.iter(), a.len(), "contents", &[])?;
    }
    Ok(())
}

/// the model holds the top at its end
fn stack<V: Val>(x: &mut X) -> R {
    let n = x.r.below(12);
    let v: Vec<V> = (0..n).map(|_| x.val()).collect();
    let mut h: Vec<(lcc::Stack<V>, Vec<V>)> = vec![(v.iter().cloned().collect(), v)];
    for _ in 0..x.len {
        let mut i = x.r.below(h.len() as u64) as usize;
        let v: V = x.val();
        match x.r.below(20) {
            0..=3 => {
                x.op("push");
                let (a, m) = &mut h[i];
                a.push(v.clone());
                m.push(v);
            }
            4 | 5 => {
                x.op("pop");
                let (a, m) = &mut h[i];
                let (g, w) = (a.pop(), m.pop());
                ok!(x, g == w, &[], "pop: got {g:?}, expected {w:?}");
            }
            6 => {
                x.op("top_mut");
                let (a, m) = &mut h[i];
                ok!(x, a.top() == m.last(), &[], "top: got {:?}, expected {:?}", a.top(), m.last());
                if let (Some(p), Some(q)) = (a.top_mut(), m.last_mut()) {
                    *p = v.clone();
                    *q = v;
                }
            }
            7 => {
                x.op("remove");
                let at = x.r.below(h[i].1.len() as u64 + 1) as usize;
                let (a, m) = &mut h[i];
                if at < m.len() {
                    let (g, w) = (a.remove(at), m.remove(at));
                    ok!(x, g == w, &[], "remove({at}): got {g:?}, expected {w:?}");
                }
            }
            8 => {
                x.op("split_off");
                let at = x.r.below(h[i].1.len() as u64 + 1) as usize;
                let (a, m) = &mut h[i];
                let b = a.split_off(at);
                let mb = m.split_off(at);
                h.push((b, mb));
            }
            9 => {
                x.op("extend");
                let v: Vec<V> = (0..x.r.below(7)).map(|_| x.val()).collect();
                let (a, m) = &mut h[i];
                m.extend(v.iter().cloned());
                a.extend(v);
            }
            10..=13 => {
                x.op("clone");
                x.shared = true;
                let c = (h[i].0.clone(), h[i].1.clone());
                h.push(c);
            }
            14 => {
                x.op("iter_mut");
                let n = x.r.below(h[i].1.len() as u64 + 2) as usize;
                let (a, m) = &mut h[i];
                a.iter_mut().take(n).for_each(|p| *p = v.clone());
                m.iter_mut().rev().take(n).for_each(|p| *p = v.clone());
            }
            15 => {
                x.op("into_iter");
                if x.r.pct(50) {
                    x.shared = true;
                    let c = (h[i].0.clone(), h[i].1.clone());
                    h.push(c);
                }
                let (a, m) = std::mem::take(&mut h[i]);
                let n = x.r.below(m.len() as u64 + 2) as usize;
                ok!(x, a.into_iter().take(n).eq(m.into_iter().rev().take(n)), &[8], "into_iter");
            }
            16 => {
                x.op("contains");
                let (a, m) = &h[i];
                ok!(x, a.contains(&v) == m.contains(&v), &[], "contains({v:?})");
                if let Some(v) = m.first() {
                    ok!(x, a.contains(v), &[], "contains({v:?})");
                }
            }
            17 | 18 => {
                x.op("compare");
                if let Some((b, mb)) = other(x, &mut h, &mut i) {
                    let (a, m) = &h[i];
                    ok!(x, (*a == b) == (*m == mb), &[12], "== on {m:?} and {mb:?}");
                    let w = m.iter().rev().cmp(mb.iter().rev());
                    ok!(x, a.cmp(&b) == w, &[12], "cmp on {m:?} and {mb:?}: got {:?}, expected {w:?}", a.cmp(&b));
                    h.push((b, mb));
                }
            }
            _ => {
                x.op("drop, clear");
                if h.len() > 1 {
                    h.swap_remove(i);
                } else if x.r.pct(30) {
                    h[i].0.clear();
                    h[i].1.clear();
                }
            }
        }
        let j = x.r.below(h.len() as u64 * 2) as usize;
        let all = if j < h.len() { j..j + 1 } else { 0..0 };
        for (a, m) in &h[all] {
            ok!(x, a.len() == m.len() && a.is_empty() == m.is_empty(), &[], "contents: length {}, expected {}", a.len(), m.len());
            ok!(x, a.iter().eq(m.iter().rev()), &[], "contents: {a:?}, expected the reverse of {m:?}");
        }
        while h.len() > 5 {
            let i = x.r.below(h.len() as u64) as usize;
            h.swap_remove(i);
        }
    }
    for (a, m) in &h {
        ok!(x, a.iter().eq(m.iter().rev()), &[], "contents: {a:?}, expected the reverse of {m:?}");
    }
    Ok(())
}

type Fun = fn(&mut X) -> R;
type ORc = Option<std::rc::Rc<u32>>;
// the build without debug assertions compiles fewer of them
#[cfg(debug_assertions)]
macro_rules! list {
    ([$($a:expr),* $(,)?] [$($b:expr),* $(,)?]) => { &[$($a as Fun,)* $($b as Fun),*] };
}
#[cfg(not(debug_assertions))]
macro_rules! list {
    ([$($a:expr),* $(,)?] [$($b:expr),* $(,)?]) => { &[$($a as Fun),*] };
}
const AVL: &[Fun] = list!([avl_map::<TagW, String>, avl_map::<Vec<u8>, ()>]
    [avl_map::<Tag, u32>, avl_map::<String, [u64; 20]>, avl_map::<(), ORc>, avl_map::<std::cmp::Reverse<u32>, Al>]);
const BT: &[Fun] = list!([bt_map::<TagW, u8, 1>, bt_map::<Tag, ORc, 4>]
    [bt_map::<Tag, u32, 2>, bt_map::<String, [u64; 20], 7>, bt_map::<(), Al, 2>, bt_map::<u8, (), 64>, bt_map::<Al, Box<u32>, 3>]);
const AVLSET: &[Fun] = list!([avl_set::<TagW>, avl_set::<String>][avl_set::<Tag>, avl_set::<()>, avl_set::<(bool, Option<u8>)>]);
const BTSET: &[Fun] = list!([bt_set::<Tag, 2>, bt_set::<TagW, 6>][bt_set::<TagW, 1>, bt_set::<Tag, 32>, bt_set::<Vec<u8>, 4>, bt_set::<(), 1>]);
const FIXED: &[Fun] = list!([fixed::<TagW, Box<u32>>, fixed::<(), ()>][fixed::<Tag, u32>, fixed::<String, [u64; 20]>, fixed::<Al, ORc>, fixed::<u8, Al>]);
const STACK: &[Fun] = list!([stack::<String>, stack::<()>][stack::<Al>, stack::<[u64; 20]>, stack::<ORc>]);

/// one operation of a plan
pub fn run(f: Fam, seed: u64, n: usize) {
    let fs = match f {
        Fam::Avl => AVL,
        Fam::BT => BT,
        Fam::AvlSet => AVLSET,
        Fam::BTSet => BTSET,
        Fam::Fixed => FIXED,
        Fam::Stack => STACK,
    };
    let mut r = Rng::new(seed);
    let which = r.below(fs.len() as u64) as usize;
    let usage = r.pct(25);
    let kr = *r.pick(&[2, 5, 12, 12, 30, 60, 200]);
    let _q = quiet();
    let mut x = X { f, r, n: 0, shared: false, len: n, kr, trace: Vec::with_capacity(n) };
    let res = {
        let _c = set_cut(true);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if !usage {
                return fs[which](&mut x);
            }
            match f {
                Fam::Avl => usage::avl(&mut x),
                Fam::BT => usage::bt(&mut x),
                Fam::AvlSet => usage::avlset(&mut x),
                Fam::BTSet => usage::btset(&mut x),
                Fam::Fixed => usage::fixed(&mut x),
                Fam::Stack => usage::stack(&mut x),
            }
        }))
    };
    match res {
        Ok(Ok(())) => (),
        Ok(Err(E(p, m))) => viol("result", p, format!("element types no. {which}: {m}")),
        Err(_) => {
            let E(p, m) = x.bad(&[], format!("unexpected panic: {}", last_panic()));
            viol("panic", p, format!("element types no. {which}: {m}"));
        }
    }
}
