//! Real side of iterator walks, with the protocol oracle (len, size_hint) checked at every step.
use crate::ctl::*;
use crate::ops::*;

pub fn hint_check(c: &OpX, what: &str, hint: (usize, Option<usize>), len: Option<usize>, rem: usize) {
    let exact = len.is_some();
    if let Some(l) = len {
        if l != rem {
            viol("iter-len", c.iter_props, format!("{what}: len() = {l}, but {rem} items remain"));
        }
    }
    let bad = if exact { hint != (rem, Some(rem)) } else { hint.0 > rem || hint.1.map_or(false, |h| h < rem) };
    if bad {
        viol("iter-hint", c.iter_props, format!("{what}: size_hint() = {hint:?}, but {rem} items remain"));
    }
}

/// double-ended walk.  `len` is Some for exact-size iterators; `ex` extracts the observation
/// (and may write, given the step number).
pub fn walk_de<I: DoubleEndedIterator>(
    c: &OpX,
    what: &str,
    mut it: I,
    len: Option<fn(&I) -> usize>,
    o: &mut Obs,
    mut ex: impl FnMut(usize, I::Item) -> (i32, u64),
) {
    let mut rem = c.expn;
    let mut y = 0;
    for i in 0..c.steps() {
        hint_check(c, what, it.size_hint(), len.map(|f| f(&it)), rem);
        let (d, k) = c.dir(i, true);
        let x = match d {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(k),
            _ => it.nth_back(k),
        };
        rem = rem.saturating_sub(k + 1);
        match x {
            Some(x) => {
                let (k, t) = ex(y, x);
                y += 1;
                o.kv(k, t);
            }
            None => o.p(NONE),
        }
        yield_point(Y_STEP);
    }
    hint_check(c, what, it.size_hint(), len.map(|f| f(&it)), rem);
    finish(c, it, o, &mut ex, y, true);
}

fn finish<I: DoubleEndedIterator>(c: &OpX, it: I, o: &mut Obs, ex: &mut impl FnMut(usize, I::Item) -> (i32, u64), y: usize, _de: bool) {
    match c.finish() {
        1 => {
            it.fold((), |_, x| {
                let (k, t) = ex(usize::MAX - y, x);
                o.kv(k, t)
            });
        }
        2 => o.p(it.count() as i64),
        4 => o.okv(it.last().map(|x| ex(usize::MAX - y, x))),
        5 => {
            let mut it = it;
            seek(c, &mut it, o, ex, y);
            it.fold((), |_, x| {
                let (k, t) = ex(usize::MAX - y, x);
                o.kv(k, t)
            });
        }
        6 => {
            let mut it = it;
            let mut n = c.seek();
            let r = it.rfind(|_| {
                n = n.wrapping_sub(1);
                n == usize::MAX
            });
            o.okv(r.map(|x| ex(usize::MAX - y, x)));
            it.fold((), |_, x| {
                let (k, t) = ex(usize::MAX - y, x);
                o.kv(k, t)
            });
        }
        3 => {
            it.rev().fold((), |_, x| {
                let (k, t) = ex(usize::MAX - y, x);
                o.kv(k, t)
            });
        }
        _ => drop(it),
    }
}

fn seek<I: Iterator>(c: &OpX, it: &mut I, o: &mut Obs, ex: &mut impl FnMut(usize, I::Item) -> (i32, u64), y: usize) {
    let mut n = c.seek();
    let r = it.find(|_| {
        n = n.wrapping_sub(1);
        n == usize::MAX
    });
    o.okv(r.map(|x| ex(usize::MAX - y, x)));
}

pub fn walk_se<I: Iterator>(
    c: &OpX,
    what: &str,
    mut it: I,
    len: Option<fn(&I) -> usize>,
    o: &mut Obs,
    mut ex: impl FnMut(usize, I::Item) -> (i32, u64),
) {
    let mut rem = c.expn;
    let mut y = 0;
    for i in 0..c.steps() {
        hint_check(c, what, it.size_hint(), len.map(|f| f(&it)), rem);
        let (d, k) = c.dir(i, false);
        let x = if d >= 2 { it.nth(k) } else { it.next() };
        rem = rem.saturating_sub(k + 1);
        match x {
            Some(x) => {
                let (k, t) = ex(y, x);
                y += 1;
                o.kv(k, t);
            }
            None => o.p(NONE),
        }
        yield_point(Y_STEP);
    }
    hint_check(c, what, it.size_hint(), len.map(|f| f(&it)), rem);
    match c.finish() {
        1 => {
            it.fold((), |_, x| {
                let (k, t) = ex(usize::MAX - y, x);
                o.kv(k, t)
            });
        }
        2 => o.p(it.count() as i64),
        4 => o.okv(it.last().map(|x| ex(usize::MAX - y, x))),
        5 => {
            let mut it = it;
            seek(c, &mut it, o, &mut ex, y);
            it.fold((), |_, x| {
                let (k, t) = ex(usize::MAX - y, x);
                o.kv(k, t)
            });
        }
        _ => drop(it),
    }
}
