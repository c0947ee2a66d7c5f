//! What user code may do inside a callback of an operation in progress: use other collections.
//! A short run over a private collection of the same family, compared with std.
use crate::coll::Fam;
use crate::ctl::*;
use crate::rng::mix;
use lazy_clone_collections as lcc;
use std::collections::{BTreeMap, BTreeSet};

fn cnt() -> impl FnMut() -> i32 {
    let mut c = 0;
    move || {
        c += 1;
        c
    }
}

macro_rules! need {
    ($c:expr, $($m:tt)*) => {
        if !($c) {
            return Err(format!($($m)*));
        }
    };
}

macro_rules! map {
    ($t:ty, $s:expr) => {{
        let s: u64 = $s;
        let k = |i: u64| (mix(s ^ i) % 48) as i32;
        let mut a: $t = (0..20).map(|i| (k(i), i as i32)).collect();
        let mut m: BTreeMap<i32, i32> = (0..20).map(|i| (k(i), i as i32)).collect();
        let snap = a.clone();
        let old = m.clone();
        for i in 0..12 {
            match mix(s ^ i ^ 0xE0) % 8 {
                0 | 1 => need!(a.insert(k(i + 30), 7) == m.insert(k(i + 30), 7), "insert"),
                2 => need!(a.remove(&k(i)) == m.remove(&k(i)), "remove"),
                3 => need!(a.get(&k(i)) == m.get(&k(i)), "get"),
                4 => *a.entry(k(i + 50)).or_insert_with(|| 3) += *m.entry(k(i + 50)).or_insert_with(|| 3),
                5 => need!(a.pop_first() == m.pop_first(), "pop_first"),
                6 => need!(a.pop_last() == m.pop_last(), "pop_last"),
                _ => {
                    if let Some(v) = a.get_mut(&k(i)) {
                        *v = 77;
                        *m.get_mut(&k(i)).ok_or("get_mut")? = 77;
                    }
                }
            }
            for (k, v) in m.iter_mut() {
                *v = *a.get(k).ok_or("lost an entry")?;
            }
        }
        a.retain(|k, v| {
            *v += 1;
            k % 5 != 2
        });
        m.retain(|k, v| {
            *v += 1;
            k % 5 != 2
        });
        a.extend((0..9).map(|i| (k(i + 99), 5)));
        m.extend((0..9).map(|i| (k(i + 99), 5)));
        for (_, v) in a.iter_mut() {
            *v ^= 1
        }
        for (_, v) in a.range_mut(10..30) {
            *v += 2
        }
        for v in a.values_mut() {
            *v -= 1
        }
        for (k, v) in m.iter_mut() {
            *v ^= 1;
            if (10..30).contains(k) {
                *v += 2
            }
            *v -= 1;
        }
        need!(a.range(5..40).rev().eq(m.range(5..40).rev()), "range");
        let mut b = a.split_off(&20);
        let mut n = m.split_off(&20);
        need!(a.iter().eq(&m) && b.iter().eq(&n), "split_off");
        need!(a.keys().eq(m.keys()) && b.values().eq(n.values()), "keys, values");
        b.append(&mut a);
        n.append(&mut m);
        need!(b.iter().eq(&n) && a.len() == 0, "append");
        let d = crate::sersim::roundtrip(&b)?;
        need!(d.iter().eq(&n) && d == b && format!("{d:?}").contains(&format!("{n:?}")), "deserialize, fmt");
        need!(snap.iter().eq(&old), "a clone taken before changed");
        need!(b.into_iter().eq(n), "into_iter");
        need!(snap.into_keys().eq(old.into_keys()), "into_keys");
    }};
}

macro_rules! set {
    ($t:ty, $s:expr) => {{
        let s: u64 = $s;
        let k = |i: u64| (mix(s ^ i) % 48) as i32;
        let mut a: $t = (0..20).map(k).collect();
        let mut m: BTreeSet<i32> = (0..20).map(k).collect();
        let b: $t = (9..30).map(k).collect();
        let n: BTreeSet<i32> = (9..30).map(k).collect();
        let snap = a.clone();
        let old = m.clone();
        for i in 0..8 {
            need!(a.insert(k(i + 40)) == m.insert(k(i + 40)), "insert");
            need!(a.remove(&k(i * 2)) == m.remove(&k(i * 2)), "remove");
        }
        a.retain(|k| k % 7 != 3);
        m.retain(|k| k % 7 != 3);
        need!(a.union(&b).eq(m.union(&n)), "union");
        need!(a.difference(&b).eq(m.difference(&n)), "difference");
        need!(a.is_subset(&b) == m.is_subset(&n) && a.is_disjoint(&b) == m.is_disjoint(&n), "is_subset, is_disjoint");
        need!(<$t>::new_union(a.clone(), b.clone()).into_iter().eq(&m | &n), "new_union");
        need!((&a & &b).into_iter().eq(&m & &n), "&");
        need!((&a ^ &b).into_iter().eq(&m ^ &n), "^");
        let d = crate::sersim::roundtrip(&a)?;
        need!(d == a, "deserialize");
        need!(a.iter().eq(&m) && snap.iter().eq(&old), "contents");
        need!(a.into_iter().eq(m), "into_iter");
    }};
}

fn run(f: Fam, s: u64) -> Result<(), String> {
    match f {
        Fam::Avl | Fam::AvlSet => {
            map!(lcc::AvlMap<i32, i32>, s);
            set!(lcc::AvlSet<i32>, s);
            let mut c = cnt();
            let mut a: lcc::AvlMap<i32, i32> = (0..9).map(|i| (i, 0)).collect();
            a.for_each_mut(|(_, v)| *v = c());
            let mut t = 0;
            a.for_each(|(_, v)| t += *v);
            need!(t == 45, "for_each");
        }
        Fam::BT | Fam::BTSet => {
            map!(lcc::btree::BTreeMap<i32, i32, 2>, s);
            set!(lcc::btree::btree_set::BTreeSet<i32, 2>, s);
        }
        Fam::Fixed => {
            let k = |i: u64| (mix(s ^ i) % 48) as i32;
            let mut a: lcc::btree::fixed::BTreeMap<i32, i32> = (0..30).map(|i| (k(i), i as i32)).collect();
            let mut m: BTreeMap<i32, i32> = (0..30).map(|i| (k(i), i as i32)).collect();
            let (snap, old) = (a.clone(), m.clone());
            for i in 0..15 {
                need!(a.insert(k(i + 40), 1) == m.insert(k(i + 40), 1), "insert");
                need!(a.remove(&k(i * 2)) == m.remove(&k(i * 2)), "remove");
            }
            for (_, v) in a.iter_mut() {
                *v += 1
            }
            for v in m.values_mut() {
                *v += 1
            }
            need!(Iterator::eq(a.iter(), &m) && Iterator::eq(snap.iter(), &old), "contents");
            need!(Iterator::eq(a.into_iter(), m), "into_iter");
        }
        Fam::Stack => {
            let mut a: lcc::Stack<i32> = (0..10).collect();
            let snap = a.clone();
            a.push(s as i32);
            need!(a.contains(&(s as i32)) && a.pop() == Some(s as i32), "push, pop");
            need!(a.remove(3) == 3, "remove");
            let mut b = a.split_off(4);
            for x in a.iter_mut() {
                *x += 100
            }
            if let Some(t) = b.top_mut() {
                *t = 50
            }
            b.extend([60, 61]);
            need!(Iterator::eq(a.into_iter(), [104, 102, 101, 100]), "split_off, iter_mut");
            need!(Iterator::eq(b.iter(), &[61, 60, 50, 8, 7, 6, 5]), "top_mut, extend");
            need!(Iterator::eq(snap.iter(), &[9, 8, 7, 6, 5, 4, 3, 2, 1, 0]), "a clone taken before changed");
        }
    }
    Ok(())
}

fn attempt(f: Fam, s: u64) -> Option<String> {
    let _c = set_cut(false);
    let _q = quiet();
    match std::panic::catch_unwind(|| run(f, s)) {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(format!("gives wrong results ({m})")),
        Err(e) => Some(format!(
            "panics ({})",
            e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?")
        )),
    }
}

/// called inside a callback
pub fn exercise(f: Fam, s: u64) {
    if let Some(msg) = attempt(f, s) {
        // the same without an operation in progress: if that fails as well, the callback has
        // nothing to do with it
        let _c = set_cut(false);
        let alone = matches!(std::thread::spawn(move || attempt(f, s)).join(), Ok(None));
        let props = if alone { u32::MAX } else { pbits(&[f.prop()]) };
        viol("reentrance", props, format!("using another collection inside a callback of an operation in progress {msg}"));
    }
}
