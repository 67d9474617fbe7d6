//! Serialization.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeMap, SerializeSeq, Serializer};
use std::fmt::Display;

/// What a format writes.
#[derive(Clone, Copy, PartialEq)]
enum Tok {
    Seq(Option<usize>),
    Map(Option<usize>),
    Item(u64, u64),
    Key(u64, u64),
    Value(u64, u64),
    End,
}

#[derive(Debug)]
struct Error;
impl Display for Error {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(_: T) -> Error {
        Error
    }
}
impl de::Error for Error {
    fn custom<T: Display>(_: T) -> Error {
        Error
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Error {
        Error
    }
}

/// Places in the order and hashes of the keys a deserializer makes.
static mut PLACES: Vec<(u64, u64)> = Vec::new();
#[allow(static_mut_refs)]
fn table() -> &'static mut Vec<(u64, u64)> {
    unsafe { &mut PLACES }
}
fn made(idx: u64, tag: u64) -> K {
    let (o, h) = table().get(idx as usize).copied().unwrap_or((idx, idx));
    K::new(idx, o, h, tag)
}

impl Serialize for K {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.touch();
        s.serialize_u64(self.idx << 32 | self.tag)
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<K, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = K;
            fn expecting(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Ok(())
            }
            fn visit_u64<E>(self, v: u64) -> Result<K, E> {
                Ok(made(v >> 32, v & 0xffff_ffff))
            }
        }
        d.deserialize_u64(V)
    }
}

/// A format that fails when it has written `left` items.
struct Out<'a> {
    toks: &'a mut Vec<Tok>,
    left: u64,
}

struct One(Option<u64>);
macro_rules! no {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<Self::Ok, Error> { Err(Error) })* };
}
macro_rules! no_more {
    () => {
        fn serialize_none(self) -> Result<Self::Ok, Error> {
            Err(Error)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Error> {
            Err(Error)
        }
        fn serialize_unit(self) -> Result<Self::Ok, Error> {
            Err(Error)
        }
        fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Error> {
            Err(Error)
        }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Self::Ok, Error> {
            Err(Error)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Self::Ok, Error> {
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<Self::Ok, Error> {
            Err(Error)
        }
        type SerializeTuple = Impossible<Self::Ok, Error>;
        type SerializeTupleStruct = Impossible<Self::Ok, Error>;
        type SerializeTupleVariant = Impossible<Self::Ok, Error>;
        type SerializeStruct = Impossible<Self::Ok, Error>;
        type SerializeStructVariant = Impossible<Self::Ok, Error>;
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
            Err(Error)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
            Err(Error)
        }
        fn serialize_tuple_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleVariant, Error> {
            Err(Error)
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
            Err(Error)
        }
        fn serialize_struct_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStructVariant, Error> {
            Err(Error)
        }
        fn collect_str<T: ?Sized + Display>(self, _: &T) -> Result<Self::Ok, Error> {
            Err(Error)
        }
        no!(
            serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
            serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_f32 f32, serialize_f64 f64,
            serialize_char char, serialize_str &str, serialize_bytes &[u8]
        );
    };
}

impl Serializer for &mut One {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Impossible<(), Error>;
    type SerializeMap = Impossible<(), Error>;
    fn serialize_u64(self, v: u64) -> Result<(), Error> {
        check(self.0.is_none(), 150);
        self.0 = Some(v);
        Ok(())
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> {
        Err(Error)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
        Err(Error)
    }
    no_more!();
}

fn one<T: ?Sized + Serialize>(v: &T) -> Result<(u64, u64), Error> {
    let mut o = One(None);
    v.serialize(&mut o)?;
    let v = o.0.ok_or(Error)?;
    Ok((v >> 32, v & 0xffff_ffff))
}

impl<'a> Serializer for Out<'a> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Out<'a>;
    type SerializeMap = Out<'a>;
    fn serialize_u64(self, _: u64) -> Result<(), Error> {
        Err(Error)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Out<'a>, Error> {
        self.toks.push(Tok::Seq(n));
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Out<'a>, Error> {
        self.toks.push(Tok::Map(n));
        Ok(self)
    }
    no_more!();
}
impl Out<'_> {
    fn put(&mut self, t: Tok) -> Result<(), Error> {
        if self.left == 0 {
            return Err(Error);
        }
        self.left -= 1;
        self.toks.push(t);
        Ok(())
    }
}
impl SerializeSeq for Out<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let (i, t) = one(v)?;
        self.put(Tok::Item(i, t))
    }
    fn end(self) -> Result<(), Error> {
        self.toks.push(Tok::End);
        Ok(())
    }
}
impl SerializeMap for Out<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let (i, t) = one(v)?;
        self.put(Tok::Key(i, t))
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let (i, t) = one(v)?;
        self.put(Tok::Value(i, t))
    }
    fn end(self) -> Result<(), Error> {
        self.toks.push(Tok::End);
        Ok(())
    }
}

/// Reads what was written; announces `hint`, fails at item `fail`, and is a map or a sequence whatever is asked for.
struct In<'a> {
    toks: &'a [Tok],
    at: usize,
    hint: Option<usize>,
    fail: u64,
}
struct Num(u64, u64);
impl<'de> Deserializer<'de> for Num {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_u64(self.0 << 32 | self.1)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> Deserializer<'de> for &mut In<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.at = 1;
        match self.toks[0] {
            Tok::Seq(_) => v.visit_seq(self),
            Tok::Map(_) => v.visit_map(self),
            _ => v.visit_u64(7),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl In<'_> {
    fn take(&mut self) -> Result<Option<(u64, u64)>, Error> {
        if self.fail == 0 {
            return Err(Error);
        }
        self.fail -= 1;
        match self.toks[self.at] {
            Tok::Item(i, t) | Tok::Key(i, t) | Tok::Value(i, t) => {
                self.at += 1;
                Ok(Some((i, t)))
            }
            _ => Ok(None),
        }
    }
}
impl<'de> SeqAccess<'de> for &mut In<'_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.take()? {
            Some((i, t)) => s.deserialize(Num(i, t)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> MapAccess<'de> for &mut In<'_> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.take()? {
            Some((i, t)) => s.deserialize(Num(i, t)).map(Some),
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        match self.take()? {
            Some((i, t)) => s.deserialize(Num(i, t)),
            None => Err(Error),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

fn any_hint(n: usize) -> Option<usize> {
    match choice(8) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        3 => Some(n),
        4 => Some(n + 3),
        5 => Some(4000),
        6 => Some(1 << 60),
        _ => Some(usize::MAX),
    }
}

trait Both: Coll + Serialize + for<'de> Deserialize<'de> {}
impl<C: Coll + Serialize + for<'de> Deserialize<'de>> Both for C {}

fn is_map<C: Coll>(c: &C) -> bool {
    C::KEYED && !c.vaddrs().is_empty()
}

fn writes<C: Both>(c: &C) -> Vec<Tok> {
    let want = c.contents();
    let mut toks = Vec::new();
    let r = c.serialize(Out { toks: &mut toks, left: u64::MAX });
    check(r.is_ok(), 151);
    let n = want.len();
    let map = is_map(c);
    check(toks.len() == 2 + if map { 2 * n } else { n }, 152);
    match toks[0] {
        Tok::Seq(h) => check((n == 0 || !map) && (h.is_none() || h == Some(n)), 153),
        Tok::Map(h) => check((n == 0 || map) && (h.is_none() || h == Some(n)), 154),
        _ => check(false, 155),
    }
    for (i, e) in want.iter().enumerate() {
        if map {
            check(toks[1 + 2 * i] == Tok::Key(e.0, e.1), 156);
            check(toks[2 + 2 * i] == Tok::Value(e.2, e.2), 157);
        } else {
            check(toks[1 + i] == Tok::Item(e.0, e.1), 158);
        }
    }
    check(toks[toks.len() - 1] == Tok::End, 159);
    toks
}

/// What is written is what iteration yields; reading it back gives an equal collection, whatever length is announced.
fn round<C: Both>() {
    let mut s = start::<C>();
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    *table() = s.u.keys.clone();
    let toks = writes(&s.c);
    let n = s.c.contents().len();
    if choice(2) == 0 {
        // a format that fails
        let items = toks.len() as u64 - 2;
        let left = choice(items + 1);
        let mut out = Vec::new();
        let r = s.c.serialize(Out { toks: &mut out, left });
        check(r.is_ok() == (left == items), 160);
        let k = out.len();
        check(k == 1 + left as usize + (left == items) as usize, 161);
        check(out[1..] == toks[1..k], 162);
        cover(2);
        return;
    }
    let mut i = In { toks: &toks, at: 0, hint: any_hint(n), fail: u64::MAX };
    let back = C::deserialize(&mut i);
    match back {
        Ok(d) => {
            check(d == s.c && s.c == d, 163);
            if C::KEYED && !C::ORDERED {
                check(Coll::len(&d) == n, 164);
            } else {
                check(d.contents() == s.c.contents(), 165);
            }
            d.verify(&s.m, &s.u);
            s.c.verify(&s.m, &s.u);
        }
        Err(_) => check(false, 166),
    }
    cover(1);
}

/// Any data: `param(7)` items, each one of a few keys; an announced length; a failure somewhere.
fn arbitrary<C: Both>(map: bool) {
    // from 1000 on: that many items with repeats, of concrete keys
    let many = param(7) >= 1000;
    let keys = param(8);
    let u = if many {
        start_universe::<C>()
    } else {
        let mut u = universe::<C>(keys as usize, param(4) as u32, param(5) as u32);
        u.used = u.keys.len();
        u
    };
    *table() = u.keys.clone();
    let mut toks = vec![if map { Tok::Map(None) } else { Tok::Seq(None) }];
    let mut m = C::model();
    let n = if many { param(7) - 1000 } else { choice(param(7) + 1) };
    for i in 0..n {
        let (k, mark) = if C::KEYED { (if many { i * 7 % keys } else { choice(keys) }, 100 + i) } else { (100 + i, 100 + i) };
        if map {
            toks.push(Tok::Key(k, mark));
            toks.push(Tok::Value(mark, mark));
        } else {
            toks.push(Tok::Item(k, mark));
        }
        C::run_model(&mut m, Op { kind: 0, arg: k, mark });
    }
    toks.push(Tok::End);
    let takes = toks.len() as u64 - 1;
    // 0: wrong kind of data; 1: a failure
    let how = choice(3);
    if how == 0 {
        toks[0] = if choice(2) == 0 {
            Tok::End
        } else if map {
            Tok::Seq(None)
        } else {
            Tok::Map(None)
        };
    }
    let fail = if how == 1 { choice(takes) } else { u64::MAX };
    let before = g().alive();
    let mut i = In { toks: &toks, at: 0, hint: any_hint(n as usize), fail };
    match C::deserialize(&mut i) {
        Ok(c) => {
            check(how == 2, 167);
            if param(9) == 1 {
                // model of a list and a stack: the front is the end, but data comes front first
                let got = c.contents();
                check(got.len() as u64 == n, 168);
                for (i, e) in got.iter().enumerate() {
                    check(e.0 == 100 + i as u64, 169);
                }
            } else {
                c.verify(&m, &u);
            }
            cover(1);
        }
        Err(_) => {
            check(how != 2, 170);
            cover(2);
        }
    }
    check(g().alive() == before, 171);
}

fn go<C: Both>(map: bool, what: u64) {
    match what {
        0 => round::<C>(),
        _ => arbitrary::<C>(map),
    }
}

fn which<P: SharedPointerKind>(what: u64) {
    match param(0) {
        0 => go::<Vector<K, P>>(false, what),
        1 => go::<List<K, P>>(false, what),
        2 => go::<Queue<K, P>>(false, what),
        3 => go::<Stack<K, P>>(false, what),
        4 => go::<HashTrieMap<K, K, P, BH>>(true, what),
        5 => go::<RedBlackTreeMap<K, K, P>>(true, what),
        6 => go::<HashTrieSet<K, P, BH>>(false, what),
        _ => go::<RedBlackTreeSet<K, P>>(false, what),
    }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p22_round() {
    if param(1) == 0 { which::<RcK>(0) } else { which::<ArcTK>(0) }
}
/// param 9: 1 for the collections that add at the front.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p22_data() {
    if param(1) == 0 { which::<RcK>(1) } else { which::<ArcTK>(1) }
}

entries!(p22_round, p22_data);
