//! Tracked keys and values.  Every callback the collections make into them is a yield point and
//! a possible fault; every instance is in the ledger.
use crate::ctl::*;
use serde::de::{Deserialize, Deserializer};
use serde::ser::{Serialize, Serializer};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

/// Search key: what the keys borrow as.  inst == 0 for a free-standing probe.
#[repr(C)]
pub struct Q {
    pub v: i32,
    pub inst: u32,
}
impl Q {
    pub fn new(v: i32) -> Q {
        Q { v, inst: 0 }
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        callback(CB_CMP);
        if self.inst != 0 {
            touch(self.inst, self as *const Q as usize, "cmp");
        }
        if o.inst != 0 {
            touch(o.inst, o as *const Q as usize, "cmp");
        }
        if tl(|t| t.note.get()) {
            note_key(if o.inst != 0 { o.v } else { self.v });
        }
        let r = self.v.cmp(&o.v);
        if lies() {
            return match r {
                Ordering::Equal => Ordering::Less,
                r => r.reverse(),
            };
        }
        r
    }
}

pub trait Key:
    Clone + Default + Ord + Borrow<Q> + Hash + fmt::Debug + Serialize + for<'a> Deserialize<'a> + Send + Sync + 'static
{
    const NAME: &'static str;
    fn mk(v: i32) -> Self;
    fn val(&self) -> i32;
    /// ledger number, without looking
    fn inst(&self) -> u32;
}

/// 8-byte key
#[repr(transparent)]
pub struct KS(Q);
/// big key, heap-owning in some runs
pub struct KL {
    q: Q,
    magic: u64,
    heap: Option<Box<[u32; 2]>>,
}

fn kl(v: i32) -> KL {
    let inst = new_inst();
    let heap = if has_g() && g().heap_elems { Some(Box::new([inst, v as u32])) } else { None };
    KL { q: Q { v, inst }, magic: 0x6b65_795f_6b65_7900 ^ inst as u64, heap }
}

impl KL {
    fn ok(&self, what: &str) -> bool {
        if !touch(self.q.inst, &self.q as *const Q as usize, what) {
            return false;
        }
        if self.magic != 0x6b65_795f_6b65_7900 ^ self.q.inst as u64 {
            viol("ledger-garbage", pbits(&[6, 7]), format!("{what}: key memory corrupt"));
            return false;
        }
        if let Some(h) = &self.heap {
            if h[0] != self.q.inst || h[1] != self.q.v as u32 {
                viol("ledger-garbage", pbits(&[6, 7]), format!("{what}: key heap memory corrupt"));
                return false;
            }
        }
        true
    }
}

impl Key for KS {
    const NAME: &'static str = "ks";
    fn mk(v: i32) -> KS {
        KS(Q { v, inst: new_inst() })
    }
    fn val(&self) -> i32 {
        touch(self.0.inst, self as *const KS as usize, "read");
        self.0.v
    }
    fn inst(&self) -> u32 {
        self.0.inst
    }
}
impl Key for KL {
    const NAME: &'static str = "kl";
    fn mk(v: i32) -> KL {
        kl(v)
    }
    fn val(&self) -> i32 {
        self.ok("read");
        self.q.v
    }
    fn inst(&self) -> u32 {
        self.q.inst
    }
}
impl Clone for KS {
    fn clone(&self) -> KS {
        callback(CB_KCLONE);
        touch(self.0.inst, self as *const KS as usize, "clone");
        KS::mk(self.0.v)
    }
}
impl Clone for KL {
    fn clone(&self) -> KL {
        callback(CB_KCLONE);
        self.ok("clone");
        kl(self.q.v)
    }
}
impl Drop for KS {
    fn drop(&mut self) {
        callback(CB_DROP);
        drop_inst(self.0.inst);
        drop_fault()
    }
}
impl Drop for KL {
    fn drop(&mut self) {
        callback(CB_DROP);
        if !(drop_inst(self.q.inst) && self.magic == 0x6b65_795f_6b65_7900 ^ self.q.inst as u64) {
            // never free the heap part of a bogus instance
            std::mem::forget(self.heap.take());
        }
        drop_fault()
    }
}

macro_rules! key_impls {
    ($t:ty, $q:expr) => {
        impl Borrow<Q> for $t {
            fn borrow(&self) -> &Q {
                $q(self)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                $q(self) == $q(o)
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some($q(self).cmp($q(o)))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                $q(self).cmp($q(o))
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                callback(CB_VCMP);
                h.write_i32(self.val())
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                callback(CB_VCMP);
                write!(f, "k{}", self.val())
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                callback(CB_SER);
                s.serialize_i32(self.val())
            }
        }
        impl<'a> Deserialize<'a> for $t {
            fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
                callback(CB_DE);
                let v = i32::deserialize(d)?;
                Ok(<$t>::mk(v))
            }
        }
        // the fixed map derives Default with bounds on K and V
        impl Default for $t {
            fn default() -> Self {
                <$t>::mk(i32::MIN)
            }
        }
    };
}
key_impls!(KS, |k: &KS| -> &'static Q { unsafe { &*(&k.0 as *const Q) } });
key_impls!(KL, |k: &KL| -> &'static Q { unsafe { &*(&k.q as *const Q) } });

pub struct V {
    inst: u32,
    magic: u32,
    tok: u64,
    heap: Option<Box<u64>>,
}
const VM: u32 = 0x5645_4c56;
impl V {
    pub fn new(tok: u64) -> V {
        let inst = new_inst();
        let heap = if has_g() && g().heap_elems { Some(Box::new(inst as u64)) } else { None };
        V { inst, magic: VM ^ inst, tok, heap }
    }
    fn ok(&self, what: &str) -> bool {
        if !touch(self.inst, self as *const V as usize, what) {
            return false;
        }
        if self.magic != VM ^ self.inst || self.heap.as_ref().map_or(false, |h| **h != self.inst as u64) {
            viol("ledger-garbage", pbits(&[6, 7]), format!("{what}: value memory corrupt"));
            return false;
        }
        true
    }
    pub fn inst(&self) -> u32 {
        self.inst
    }
    pub fn tok(&self) -> u64 {
        self.ok("read");
        self.tok
    }
    pub fn set(&mut self, tok: u64) {
        self.ok("write");
        self.tok = tok;
    }
}
pub const DEFAULT_TOK: u64 = 0xD3FA;
impl Default for V {
    fn default() -> V {
        V::new(DEFAULT_TOK)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        callback(CB_VCLONE);
        self.ok("clone");
        V::new(self.tok)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        callback(CB_DROP);
        if !(drop_inst(self.inst) && self.magic == VM ^ self.inst) {
            std::mem::forget(self.heap.take());
        }
        drop_fault()
    }
}
/// in runs with such values: is this one unordered, unequal to everything including itself?
pub fn is_nan(tok: u64) -> bool {
    has_g() && g().nan && crate::rng::mix(tok) % 3 == 0
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        callback(CB_VCMP);
        self.tok() == o.tok() && !is_nan(self.tok)
    }
}
impl Eq for V {}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<Ordering> {
        callback(CB_VCMP);
        if is_nan(self.tok()) || is_nan(o.tok()) {
            return None;
        }
        Some(self.tok.cmp(&o.tok))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> Ordering {
        callback(CB_VCMP);
        self.tok().cmp(&o.tok())
    }
}
impl Hash for V {
    fn hash<H: Hasher>(&self, h: &mut H) {
        callback(CB_VCMP);
        h.write_u64(self.tok())
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        callback(CB_VCMP);
        write!(f, "v{}", self.tok())
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        callback(CB_SER);
        s.serialize_u64(self.tok())
    }
}
impl<'a> Deserialize<'a> for V {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        callback(CB_DE);
        let v = u64::deserialize(d)?;
        Ok(V::new(v))
    }
}
