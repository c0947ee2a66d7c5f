//! Every way of using an iterator up that the standard library offers (an iterator may bring its
//! own version of any of them), against std's own iterator over the same items.
use crate::side::{ok, R, X};
use lazy_clone_collections as lcc;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

/// every other way to use an iterator up: std's own iterator over the model says what is right
fn consume<T: Ord + Debug>(x: &mut X, mut a: impl Iterator<Item = T>, b: Vec<T>, what: &str, ps: &[u8]) -> R {
    let mut b = b.into_iter();
    for _ in 0..x.r.below(4) {
        let k = if x.r.pct(70) { 0 } else { x.r.below(6) as usize };
        let (p, q) = if k == 0 { (a.next(), b.next()) } else { (a.nth(k), b.nth(k)) };
        ok!(x, p == q, ps, "{what}: nth({k}) gave {p:?}, expected {q:?}");
    }
    let (lo, hi) = a.size_hint();
    let mut n = x.r.below(12) as usize;
    macro_rules! both {
        ($how:expr, $i:ident => $f:expr) => {{
            let p = { let $i = &mut a; $f };
            let q = { let $i = &mut b; $f };
            ok!(x, p == q, ps, "{what}: {} gave {p:?}, expected {q:?}", $how);
        }};
    }
    macro_rules! whole {
        ($how:expr, $it:ident => $f:expr) => {{
            let p = { let $it = a; $f };
            let q = { let $it = b; $f };
            ok!(x, p == q, ps, "{what}: {} gave {p:?}, expected {q:?}", $how);
        }};
    }
    fn nth_call<T>(mut n: usize) -> impl FnMut(T) -> bool {
        move |_| {
            n = n.wrapping_sub(1);
            n == usize::MAX
        }
    }
    match x.r.below(22) {
        0 => whole!("min", i => i.min()),
        1 => whole!("max", i => i.max()),
        2 => whole!("last", i => i.last()),
        3 => whole!("count", i => i.count()),
        4 => {
            n %= 5;
            whole!("step_by", i => i.step_by(n + 1).collect::<Vec<_>>())
        }
        5 => whole!("skip", i => i.skip(n).collect::<Vec<_>>()),
        6 => whole!("reduce", i => i.reduce(|p, _| p)),
        7 => whole!("partition", i => { let mut k = 0; i.partition::<Vec<_>, _>(|_| { k += 1; k % 3 == 0 }) }),
        8 => whole!("min_by", i => i.min_by(|p, q| q.cmp(p))),
        9 => whole!("max_by", i => i.max_by(|p, q| q.cmp(p))),
        10 => whole!("peekable", i => { let mut i = i.peekable(); let mut v = vec![]; while i.peek().is_some() { v.extend(i.next()) } v }),
        11 => whole!("fuse", i => { let mut i = i.fuse(); let v: Vec<_> = i.by_ref().collect(); (v, i.next().is_none()) }),
        12 => whole!("skip_while", i => { let mut f = nth_call(n); i.skip_while(|_| !f(())).collect::<Vec<_>>() }),
        13 => {
            let v: Vec<T> = b.collect();
            ok!(x, lo <= v.len() && hi.map_or(true, |h| h >= v.len()), ps, "{what}: size_hint ({lo}, {hi:?}), {} remain", v.len());
            let g: Vec<T> = a.collect();
            ok!(x, g == v, ps, "{what}: got {g:?}, expected {v:?}");
        }
        14 => ok!(x, a.cmp(b) == Ordering::Equal, ps, "{what}: not what is expected"),
        15 => whole!("is_sorted", i => i.is_sorted()),
        k => {
            match k {
                16 => both!("position", i => i.position(nth_call(n))),
                17 => both!("find", i => { let mut f = nth_call(n); i.find(|_| f(())) }),
                18 => both!("any", i => i.any(nth_call(n))),
                19 => both!("all", i => { let mut f = nth_call(n); i.all(|e| !f(e)) }),
                20 => both!("take", i => i.take(n).collect::<Vec<_>>()),
                _ => {
                    // not through a trait object: an own try_fold is used
                    let mut f = nth_call(n);
                    let p = a.try_fold(0, |s, e| if f(e) { Err(s) } else { Ok(s + 1) });
                    let mut f = nth_call(n);
                    let q = b.try_fold(0, |s, e| if f(e) { Err(s) } else { Ok(s + 1) });
                    ok!(x, p == q, ps, "{what}: try_fold gave {p:?}, expected {q:?}");
                }
            }
            let (g, w): (Vec<T>, Vec<T>) = (a.collect(), b.collect());
            ok!(x, g == w, ps, "{what}: the rest is {g:?}, expected {w:?}");
        }
    }
    Ok(())
}
fn consume_de<T: Ord + Debug>(x: &mut X, mut a: impl DoubleEndedIterator<Item = T>, b: Vec<T>, what: &str, ps: &[u8]) -> R {
    let mut b = b.into_iter();
    for _ in 0..x.r.below(4) {
        let k = if x.r.pct(70) { 0 } else { x.r.below(6) as usize };
        let (p, q) = match (x.r.pct(50), k) {
            (true, 0) => (a.next(), b.next()),
            (true, k) => (a.nth(k), b.nth(k)),
            (_, 0) => (a.next_back(), b.next_back()),
            (_, k) => (a.nth_back(k), b.nth_back(k)),
        };
        ok!(x, p == q, ps, "{what}: a step from either end gave {p:?}, expected {q:?}");
    }
    let n = x.r.below(12) as usize;
    if x.r.pct(50) {
        // `consume` for most: it is instantiated for the iterator itself only
        return consume(x, a, b.collect(), what, ps);
    }
    match x.r.below(5) {
        0 => {
            let (p, q) = (a.rfold(vec![], |mut v, e| { v.push(e); v }), b.rfold(vec![], |mut v, e| { v.push(e); v }));
            ok!(x, p == q, ps, "{what}: rfold gave {p:?}, expected {q:?}");
        }
        1 => {
            let (mut i, mut j) = (n, n);
            let p = a.rfind(|_| { i = i.wrapping_sub(1); i == usize::MAX });
            let q = b.rfind(|_| { j = j.wrapping_sub(1); j == usize::MAX });
            ok!(x, p == q, ps, "{what}: rfind gave {p:?}, expected {q:?}");
            return consume(x, a, b.collect(), what, ps);
        }
        2 => {
            let (p, q) = (a.try_rfold(0, |s, _| if s == n { Err(s) } else { Ok(s + 1) }), b.try_rfold(0, |s, _| if s == n { Err(s) } else { Ok(s + 1) }));
            ok!(x, p == q, ps, "{what}: try_rfold gave {p:?}, expected {q:?}");
            return consume(x, a, b.collect(), what, ps);
        }
        3 => {
            let (p, q) = (a.rev().min(), b.rev().min());
            ok!(x, p == q, ps, "{what}: rev().min() gave {p:?}, expected {q:?}");
        }
        _ => {
            let (p, q): (Vec<T>, Vec<T>) = (a.rev().skip(n).collect(), b.rev().skip(n).collect());
            ok!(x, p == q, ps, "{what}: rev().skip({n}) gave {p:?}, expected {q:?}");
        }
    }
    Ok(())
}

type M = BTreeMap<u16, u32>;
type S = BTreeSet<u16>;

fn key(x: &mut X) -> u16 {
    x.r.below(x.kr) as u16
}
fn bounds(x: &mut X) -> (std::ops::Bound<u16>, std::ops::Bound<u16>) {
    use std::ops::Bound::*;
    let (a, b) = (key(x), key(x));
    let (a, b) = (a.min(b), a.max(b));
    let lo = [Unbounded, Included(a), Excluded(a)][x.r.below(3) as usize];
    let hi = [Unbounded, Included(b), Excluded(b.max(a + 1))][x.r.below(3) as usize];
    (lo, hi)
}

macro_rules! map {
    ($n:ident, $t:ty, $($range:ident)?) => {
        pub fn $n(x: &mut X) -> R {
            let (mut a, mut m) = (<$t>::default(), M::new());
            let mut c = a.clone();
            for i in 0..x.r.below(3 * x.kr) {
                let k = key(x);
                if x.r.pct(70) {
                    ok!(x, a.insert(k, i as u32) == m.insert(k, i as u32), &[], "insert");
                } else {
                    ok!(x, a.remove(&k) == m.remove(&k), &[], "remove");
                }
                if x.r.below(20) == 0 {
                    x.shared = true;
                    c = a.clone();
                }
            }
            for _ in 0..x.len {
                if x.r.pct(10) {
                    x.shared = true;
                    c = a.clone();
                }
                let mut ma = m.clone();
                match x.r.below(10) {
                    0 => consume_de(x, a.iter(), m.iter().collect(), "iter", &[8])?,
                    1 => consume_de(x, a.iter_mut(), ma.iter_mut().collect(), "iter_mut", &[8])?,
                    2 => consume_de(x, a.clone().into_iter(), m.clone().into_iter().collect(), "into_iter", &[8])?,
                    $(
                        3 => consume_de(x, a.keys(), m.keys().collect(), "keys", &[8])?,
                        4 => consume_de(x, a.values(), m.values().collect(), "values", &[8])?,
                        5 => consume_de(x, a.values_mut(), ma.values_mut().collect(), "values_mut", &[8])?,
                        6 => consume_de(x, a.clone().into_keys(), m.keys().copied().collect(), "into_keys", &[8])?,
                        7 => consume_de(x, a.clone().into_values(), m.values().copied().collect(), "into_values", &[8])?,
                        8 => {
                            let r = bounds(x);
                            consume_de(x, a.$range(r), m.range(r).collect(), "range", &[16])?
                        }
                        9 => {
                            let r = bounds(x);
                            consume_de(x, a.range_mut(r), ma.range_mut(r).collect(), "range_mut", &[16])?
                        }
                    )?
                    _ => {
                        let b = std::mem::take(&mut a);
                        a = b.clone();
                        consume_de(x, b.into_iter(), m.clone().into_iter().collect(), "into_iter", &[8])?
                    }
                }
            }
            ok!(x, a.iter().eq(m.iter()), &[8], "contents");
            drop(c);
            Ok(())
        }
    };
}
map!(avl, lcc::AvlMap<u16, u32>, range);
map!(bt, lcc::btree::BTreeMap<u16, u32, 2>, range);
map!(fixed, lcc::btree::fixed::BTreeMap<u16, u32>, );

macro_rules! set {
    ($n:ident, $t:ty) => {
        pub fn $n(x: &mut X) -> R {
            let (mut a, mut m) = (<$t>::default(), S::new());
            let (mut b, mut mb) = (a.clone(), m.clone());
            for _ in 0..x.r.below(3 * x.kr) {
                let k = key(x);
                if x.r.pct(70) {
                    ok!(x, a.insert(k) == m.insert(k), &[], "insert");
                } else {
                    ok!(x, a.remove(&k) == m.remove(&k), &[], "remove");
                }
                if x.r.below(20) == 0 {
                    x.shared = true;
                    (b, mb) = (a.clone(), m.clone());
                } else if x.r.pct(30) {
                    let k = key(x);
                    ok!(x, b.insert(k) == mb.insert(k), &[], "insert");
                }
            }
            for _ in 0..x.len {
                match x.r.below(8) {
                    0 => consume(x, a.iter(), m.iter().collect(), "iter", &[8])?,
                    1 => consume(x, a.clone().into_iter(), m.iter().copied().collect(), "into_iter", &[8])?,
                    2 => {
                        let r = bounds(x);
                        consume(x, a.range(r), m.range(r).collect(), "range", &[16])?
                    }
                    3 => consume(x, a.union(&b), m.union(&mb).collect(), "union", &[8])?,
                    4 => consume(x, a.intersection(&b), m.intersection(&mb).collect(), "intersection", &[8])?,
                    5 => consume(x, a.difference(&b), m.difference(&mb).collect(), "difference", &[8])?,
                    6 => consume(x, a.symmetric_difference(&b), m.symmetric_difference(&mb).collect(), "symmetric_difference", &[8])?,
                    _ => {
                        let c = std::mem::take(&mut a);
                        a = c.clone();
                        consume(x, c.into_iter(), m.iter().copied().collect(), "into_iter", &[8])?
                    }
                }
            }
            Ok(())
        }
    };
}
set!(avlset, lcc::AvlSet<u16>);
set!(btset, lcc::btree::btree_set::BTreeSet<u16, 2>);

pub fn stack(x: &mut X) -> R {
    let v: Vec<u16> = (0..x.r.below(40)).map(|_| key(x)).collect();
    let mut a: lcc::Stack<u16> = v.iter().copied().collect();
    let mut m: Vec<u16> = v.into_iter().rev().collect();
    let mut c = a.clone();
    for _ in 0..x.len {
        match x.r.below(5) {
            0 => consume(x, a.iter(), m.iter().collect(), "iter", &[8])?,
            1 => {
                let mut mm = m.clone();
                consume(x, a.iter_mut(), mm.iter_mut().collect(), "iter_mut", &[8])?
            }
            2 => consume(x, a.clone().into_iter(), m.clone(), "into_iter", &[8])?,
            3 => {
                x.shared = true;
                c = a.clone();
            }
            _ => {
                let k = key(x);
                a.push(k);
                m.insert(0, k);
            }
        }
    }
    drop(c);
    Ok(())
}
