//! Simulated serialization peers: a sink that can fail at any call, and a stream that can end
//! early, report errors and lie about its length.
use crate::ctl::*;
use crate::ops::*;
use crate::rng::mix;
use serde::de::{self, Deserialize, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Debug)]
pub struct SimErr(pub String);
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimErr {}
impl ser::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        SimErr(m.to_string())
    }
}
impl de::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        SimErr(m.to_string())
    }
}
const INJ: &str = "injected i/o error";

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    I(i64),
    U(u64),
    Map(Option<usize>, Vec<(Val, Val)>),
    Seq(Option<usize>, Vec<Val>),
    Struct(&'static str, Vec<(&'static str, Val)>),
}

// ------------------------------------------------------------ sink

pub struct Sink {
    pub fail_at: Cell<usize>, // 0: never
    pub calls: Cell<usize>,
    pub failed: Cell<bool>,
    pub after: Cell<usize>,
    pub log: RefCell<Vec<Val>>, // scalars in the order written
    pub human: Cell<bool>,
}
impl Sink {
    pub fn new(fail_at: usize) -> Sink {
        Sink { fail_at: Cell::new(fail_at), calls: Cell::new(0), failed: Cell::new(false), after: Cell::new(0), log: RefCell::new(vec![]), human: Cell::new(true) }
    }
    fn call(&self) -> Result<(), SimErr> {
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
            return Err(SimErr(INJ.into()));
        }
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() == self.fail_at.get() {
            self.failed.set(true);
            return Err(SimErr(INJ.into()));
        }
        Ok(())
    }
}
pub struct Ser<'a>(&'a Sink);
pub struct SerC<'a>(&'a Sink, Val, Option<Val>);

macro_rules! nope {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<Val, SimErr> { Err(SimErr(concat!("unsupported ", stringify!($f)).into())) })* };
}
impl<'a> ser::Serializer for Ser<'a> {
    type Ok = Val;
    type Error = SimErr;
    type SerializeSeq = SerC<'a>;
    type SerializeTuple = SerC<'a>;
    type SerializeTupleStruct = SerC<'a>;
    type SerializeTupleVariant = SerC<'a>;
    type SerializeMap = SerC<'a>;
    type SerializeStruct = SerC<'a>;
    type SerializeStructVariant = SerC<'a>;
    nope! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32);
            serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none();
            serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn is_human_readable(&self) -> bool {
        self.0.human.get()
    }
    fn serialize_i32(self, v: i32) -> Result<Val, SimErr> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i64(self, v: i64) -> Result<Val, SimErr> {
        self.0.call()?;
        self.0.log.borrow_mut().push(Val::I(v));
        Ok(Val::I(v))
    }
    fn serialize_u64(self, v: u64) -> Result<Val, SimErr> {
        self.0.call()?;
        self.0.log.borrow_mut().push(Val::U(v));
        Ok(Val::U(v))
    }
    fn serialize_unit(self) -> Result<Val, SimErr> {
        self.0.call()?;
        Ok(Val::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val, SimErr> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Val, SimErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<Val, SimErr> {
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SerC<'a>, SimErr> {
        self.0.call()?;
        Ok(SerC(self.0, Val::Seq(n, vec![]), None))
    }
    fn serialize_tuple(self, n: usize) -> Result<SerC<'a>, SimErr> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<SerC<'a>, SimErr> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<SerC<'a>, SimErr> {
        self.serialize_seq(Some(n))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<SerC<'a>, SimErr> {
        self.0.call()?;
        Ok(SerC(self.0, Val::Map(n, vec![]), None))
    }
    fn serialize_struct(self, name: &'static str, _: usize) -> Result<SerC<'a>, SimErr> {
        self.0.call()?;
        Ok(SerC(self.0, Val::Struct(name, vec![]), None))
    }
    fn serialize_struct_variant(self, name: &'static str, _: u32, _: &'static str, n: usize) -> Result<SerC<'a>, SimErr> {
        self.serialize_struct(name, n)
    }
}
impl<'a> SerC<'a> {
    fn elem<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        let x = v.serialize(Ser(self.0))?;
        if let Val::Seq(_, xs) = &mut self.1 {
            xs.push(x)
        }
        Ok(())
    }
    fn fin(self) -> Result<Val, SimErr> {
        self.0.call()?;
        Ok(self.1)
    }
}
impl<'a> ser::SerializeSeq for SerC<'a> {
    type Ok = Val;
    type Error = SimErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.elem(v)
    }
    fn end(self) -> Result<Val, SimErr> {
        self.fin()
    }
}
impl<'a> ser::SerializeTuple for SerC<'a> {
    type Ok = Val;
    type Error = SimErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.elem(v)
    }
    fn end(self) -> Result<Val, SimErr> {
        self.fin()
    }
}
impl<'a> ser::SerializeTupleStruct for SerC<'a> {
    type Ok = Val;
    type Error = SimErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.elem(v)
    }
    fn end(self) -> Result<Val, SimErr> {
        self.fin()
    }
}
impl<'a> ser::SerializeTupleVariant for SerC<'a> {
    type Ok = Val;
    type Error = SimErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.elem(v)
    }
    fn end(self) -> Result<Val, SimErr> {
        self.fin()
    }
}
impl<'a> ser::SerializeMap for SerC<'a> {
    type Ok = Val;
    type Error = SimErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.2 = Some(v.serialize(Ser(self.0))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        let x = v.serialize(Ser(self.0))?;
        let k = self.2.take().ok_or_else(|| SimErr("value without key".into()))?;
        if let Val::Map(_, xs) = &mut self.1 {
            xs.push((k, x))
        }
        Ok(())
    }
    fn end(self) -> Result<Val, SimErr> {
        self.fin()
    }
}
impl<'a> ser::SerializeStruct for SerC<'a> {
    type Ok = Val;
    type Error = SimErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), SimErr> {
        let x = v.serialize(Ser(self.0))?;
        if let Val::Struct(_, xs) = &mut self.1 {
            xs.push((n, x))
        }
        Ok(())
    }
    fn end(self) -> Result<Val, SimErr> {
        self.fin()
    }
}
impl<'a> ser::SerializeStructVariant for SerC<'a> {
    type Ok = Val;
    type Error = SimErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), SimErr> {
        ser::SerializeStruct::serialize_field(self, n, v)
    }
    fn end(self) -> Result<Val, SimErr> {
        self.fin()
    }
}

pub fn to_val<T: Serialize>(x: &T) -> Val {
    to_val_as(x, true)
}
fn to_val_as<T: Serialize>(x: &T, human: bool) -> Val {
    let _q = quiet();
    let s = Sink::new(0);
    s.human.set(human);
    x.serialize(Ser(&s)).unwrap_or(Val::Unit)
}

/// entries of the first map or sequence in a value
pub fn entries(v: &Val) -> Option<(Option<usize>, Vec<(i64, u64)>)> {
    let sc = |v: &Val| match v {
        Val::I(i) => *i as u64,
        Val::U(u) => *u,
        _ => 0,
    };
    match v {
        Val::Map(d, xs) => Some((*d, xs.iter().map(|(k, v)| (sc(k) as i64, sc(v))).collect())),
        Val::Seq(d, xs) => Some((*d, xs.iter().map(|k| (sc(k) as i64, 0)).collect())),
        Val::Struct(_, fs) => fs.iter().find_map(|f| entries(&f.1)),
        _ => None,
    }
}

/// does the format of this operation say that it is meant for people to read?
fn human(c: &OpX) -> bool {
    mix(c.pat ^ 123) & 1 == 0
}

/// Serialize into a failing sink (checked here), then into a good one (observed).
pub fn ser_op<T: Serialize + crate::coll::CollImpl>(x: &T, c: &OpX, o: &mut Obs) {
    let p = pbits(&[14]);
    if c.pat >> 24 & 1 == 1 {
        let fail_at = 1 + (mix(c.pat) as usize) % (2 * c.len + 6);
        let s = Sink::new(fail_at);
        s.human.set(human(c));
        let r = x.serialize(Ser(&s));
        if s.failed.get() {
            g().fired[11] += 1;
            match r {
                Ok(_) => viol("ser-error-lost", p, format!("sink failed at call {fail_at}, but serialize returned Ok")),
                Err(e) if e.0 != INJ => viol("ser-error-lost", p, format!("sink failed with {INJ:?}, but serialize returned {e}")),
                _ => (),
            }
            if s.after.get() > 0 {
                viol("ser-after-error", p, format!("{} calls on the sink after it had failed", s.after.get()));
            }
        } else if let Err(e) = r {
            viol("ser-error", p, format!("serialize into a good sink failed: {e}"));
        }
    }
    let s = Sink::new(0);
    s.human.set(human(c));
    match x.serialize(Ser(&s)) {
        Err(e) => viol("ser-error", p, format!("serialize into a good sink failed: {e}")),
        Ok(v) => match entries(&v) {
            None => viol("ser-error", p, "no entries written".into()),
            Some((d, es)) => {
                o.p(d.map_or(NONE, |d| d as i64));
                for (k, t) in es {
                    o.kv(k as i32, t)
                }
            }
        },
    }
}

// ------------------------------------------------------------ stream

pub struct Stream {
    pub fail_at: usize, // entry index at which the stream errors; usize::MAX never
    pub fail_val: bool, // on the value rather than the key
    pub hint: HintMode,
    pub fired: Cell<bool>,
    pub human: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HintMode {
    None,
    Exact,
    Fixed(usize),
}
#[derive(Clone, Copy)]
pub struct De<'a>(&'a Val, &'a Stream);

macro_rules! de_any {
    ($($f:ident)*) => { $(fn $f<W: Visitor<'de>>(self, v: W) -> Result<W::Value, SimErr> { self.deserialize_any(v) })* };
}
impl<'de, 'a> de::Deserializer<'de> for De<'a> {
    type Error = SimErr;
    fn is_human_readable(&self) -> bool {
        self.1.human
    }
    fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value, SimErr> {
        match self.0 {
            Val::Unit => v.visit_unit(),
            Val::I(i) => v.visit_i64(*i),
            Val::U(u) => v.visit_u64(*u),
            Val::Map(_, xs) => v.visit_map(MapA(xs, 0, self.1, false)),
            Val::Seq(_, xs) => v.visit_seq(SeqA(xs, 0, self.1)),
            Val::Struct(_, fs) => v.visit_map(StructA(fs, 0, self.1)),
        }
    }
    de_any! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32
        deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
        deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_option<W: Visitor<'de>>(self, v: W) -> Result<W::Value, SimErr> {
        v.visit_some(self)
    }
    fn deserialize_unit_struct<W: Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value, SimErr> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value, SimErr> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<W: Visitor<'de>>(self, _: usize, v: W) -> Result<W::Value, SimErr> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<W: Visitor<'de>>(self, _: &'static str, _: usize, v: W) -> Result<W::Value, SimErr> {
        self.deserialize_any(v)
    }
    fn deserialize_struct<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, SimErr> {
        self.deserialize_any(v)
    }
    fn deserialize_enum<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: W) -> Result<W::Value, SimErr> {
        Err(SimErr("enum".into()))
    }
}
struct Name(&'static str);
impl<'de> de::Deserializer<'de> for Name {
    type Error = SimErr;
    fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value, SimErr> {
        v.visit_str(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

impl Stream {
    fn fail(&self, i: usize, val: bool) -> Result<(), SimErr> {
        if i == self.fail_at && val == self.fail_val {
            self.fired.set(true);
            let _c = set_cut(false);
            g().fired[12] += 1;
            return Err(SimErr(INJ.into()));
        }
        Ok(())
    }
    fn hint(&self, rem: usize, done: usize) -> Option<usize> {
        match self.hint {
            HintMode::None => None,
            HintMode::Exact => Some(rem),
            HintMode::Fixed(n) => Some(n.saturating_sub(done)),
        }
    }
}
struct MapA<'a>(&'a [(Val, Val)], usize, &'a Stream, bool);
impl<'de, 'a> de::MapAccess<'de> for MapA<'a> {
    type Error = SimErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, SimErr> {
        self.2.fail(self.1, false)?;
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        s.deserialize(De(&self.0[self.1].0, self.2)).map(Some)
    }
    fn next_value_seed<X: DeserializeSeed<'de>>(&mut self, s: X) -> Result<X::Value, SimErr> {
        self.2.fail(self.1, true)?;
        let i = self.1;
        self.1 += 1;
        s.deserialize(De(&self.0[i].1, self.2))
    }
    fn size_hint(&self) -> Option<usize> {
        self.2.hint(self.0.len() - self.1, self.1)
    }
}
struct SeqA<'a>(&'a [Val], usize, &'a Stream);
impl<'de, 'a> de::SeqAccess<'de> for SeqA<'a> {
    type Error = SimErr;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, SimErr> {
        self.2.fail(self.1, false)?;
        self.2.fail(self.1, true)?;
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        self.1 += 1;
        s.deserialize(De(&self.0[self.1 - 1], self.2)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.2.hint(self.0.len() - self.1, self.1)
    }
}
struct StructA<'a>(&'a [(&'static str, Val)], usize, &'a Stream);
impl<'de, 'a> de::MapAccess<'de> for StructA<'a> {
    type Error = SimErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, SimErr> {
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        s.deserialize(Name(self.0[self.1].0)).map(Some)
    }
    fn next_value_seed<X: DeserializeSeed<'de>>(&mut self, s: X) -> Result<X::Value, SimErr> {
        self.1 += 1;
        s.deserialize(De(&self.0[self.1 - 1].1, self.2))
    }
}

fn subst(shape: &Val, items: &[(i32, u64)]) -> Val {
    match shape {
        Val::Map(..) => Val::Map(None, items.iter().map(|(k, t)| (Val::I(*k as i64), if *t == 0 { Val::Unit } else { Val::U(*t) })).collect()),
        Val::Seq(..) => Val::Seq(None, items.iter().map(|(k, _)| Val::I(*k as i64)).collect()),
        Val::Struct(n, fs) => Val::Struct(n, fs.iter().map(|(f, v)| (*f, subst(v, items))).collect()),
        v => v.clone(),
    }
}

/// the stream's entries, as the model also sees them
pub fn de_items(c: &OpX, set: bool) -> Vec<(i32, u64)> {
    let mut v: Vec<_> = (0..c.n).map(|i| c.item(i)).collect();
    match c.pat >> 32 & 3 {
        0 => (),
        1 => {
            v.sort(); // sorted, repeated keys possible
        }
        _ => {
            v.sort();
            v.dedup_by_key(|e| e.0);
        }
    }
    if set {
        for e in v.iter_mut() {
            e.1 = 0
        }
    }
    v
}
pub fn de_fail_at(c: &OpX, n: usize) -> Option<usize> {
    if c.pat >> 28 & 3 == 0 && n > 0 {
        Some(mix(c.pat ^ 5) as usize % n)
    } else {
        None
    }
}
/// instead of an I/O error: a stream whose content has the wrong shape (0: no collection at all,
/// 1: a key that is no key, 2: a value that is no value)
fn de_bad_shape(c: &OpX) -> Option<u64> {
    match mix(c.pat ^ 77) % 8 {
        k @ 0..=2 => Some(k),
        _ => None,
    }
}
fn misshape(v: Val, kind: u64, at: usize) -> Val {
    let junk = || Val::Map(None, vec![]);
    match v {
        Val::Struct(n, fs) => Val::Struct(n, fs.into_iter().map(|(f, v)| (f, misshape(v, kind, at))).collect()),
        _ if kind == 0 => Val::I(7),
        Val::Map(d, mut xs) => {
            if kind == 1 {
                xs[at].0 = junk()
            } else {
                xs[at].1 = junk()
            }
            Val::Map(d, xs)
        }
        Val::Seq(d, mut xs) => {
            xs[at] = junk();
            Val::Seq(d, xs)
        }
        v => v,
    }
}
fn hint_mode(c: &OpX, n: usize) -> HintMode {
    let r = mix(c.pat ^ 99) as usize;
    match c.pat >> 24 & 15 {
        0 => HintMode::None,
        1..=5 => HintMode::Exact,
        6 | 7 => HintMode::Fixed(r % (n + 1)),
        8 | 9 => HintMode::Fixed(n + 1 + r % 8),
        10 => HintMode::Fixed(n * 2 + r % 64),
        11 => HintMode::Fixed(1 << (r % 20)),
        12 => HintMode::Fixed(usize::MAX),
        13 => HintMode::Fixed(usize::MAX - r % 4),
        14 => HintMode::Fixed(usize::MAX / 2 + r % 3),
        _ => HintMode::Fixed(1 << (20 + r % 40)),
    }
}

fn run_de<T: crate::coll::CollImpl + for<'a> Deserialize<'a>>(c: &OpX, v: &Val, st: &Stream, n: usize) -> Result<T, SimErr> {
    // into a collection that holds something already
    let place = (mix(c.pat ^ 321) % 4 == 0).then(|| {
        let _q = quiet();
        T::from_items(&[(1, 1), (3, 2), (1000, 3)])
    });
    tl(|t| t.amax.set(0));
    let r = match place {
        Some(mut p) => T::deserialize_in_place(De(v, st), &mut p).map(|()| p),
        None => T::deserialize(De(v, st)),
    };
    let m = tl(|t| t.amax.get());
    if tl(|t| t.quiet.get()) == 0 && m > 65536 + 512 * n {
        viol("de-alloc", pbits(&[10]), format!("deserializing {n} entries with declared size {:?} made one allocation of {m} bytes", st.hint));
    }
    r
}

pub fn de_op<T: crate::coll::CollImpl + Serialize + for<'a> Deserialize<'a>>(c: &OpX, o: &mut Obs) -> Option<T> {
    let (v, n) = {
        let _c = set_cut(false);
        let items = de_items(c, T::FAM.is_set());
        (subst(&to_val_as(&T::new(), human(c)), &items), items.len())
    };
    let mut v = v;
    let mut fail_at = de_fail_at(c, n).unwrap_or(usize::MAX);
    let mut misshapen = false;
    if fail_at != usize::MAX {
        if let Some(kind) = de_bad_shape(c) {
            let _c = set_cut(false);
            v = misshape(v, kind, fail_at);
            fail_at = usize::MAX;
            misshapen = true;
            g().fired[14] += 1;
        }
    }
    let st = Stream {
        fail_at,
        fail_val: c.pat >> 30 & 1 == 1,
        hint: hint_mode(c, n),
        fired: Cell::new(false),
        human: human(c),
    };
    match run_de::<T>(c, &v, &st, n) {
        Ok(t) => {
            o.p(1);
            Some(t)
        }
        Err(e) => {
            o.p(0);
            if e.0 != INJ && !misshapen {
                viol("de-error", pbits(&[10]), format!("error {e} instead of {INJ:?}"));
            }
            None
        }
    }
}

pub fn ser_de<T: crate::coll::CollImpl + Serialize + for<'a> Deserialize<'a>>(s: &T, c: &OpX, o: &mut Obs) -> Option<T> {
    let sink = Sink::new(0);
    sink.human.set(human(c));
    let v = match s.serialize(Ser(&sink)) {
        Ok(v) => v,
        Err(e) => {
            viol("ser-error", pbits(&[14]), format!("serialize into a good sink failed: {e}"));
            return None;
        }
    };
    let st = Stream { fail_at: usize::MAX, fail_val: false, hint: hint_mode(c, c.len), fired: Cell::new(false), human: human(c) };
    match run_de::<T>(c, &v, &st, c.len) {
        Ok(t) => {
            o.p(1);
            Some(t)
        }
        Err(e) => {
            viol("de-error", pbits(&[10, 14]), format!("reading back what was serialized failed: {e}"));
            None
        }
    }
}

/// serialize and read back, without faults
pub fn roundtrip<T: Serialize + for<'a> Deserialize<'a>>(x: &T) -> Result<T, String> {
    let v = x.serialize(Ser(&Sink::new(0))).map_err(|e| e.0)?;
    let st = Stream { fail_at: usize::MAX, fail_val: false, hint: HintMode::Exact, fired: Cell::new(false), human: true };
    T::deserialize(De(&v, &st)).map_err(|e| e.0)
}
