//! A serializer that records exactly what it is told, and a deserializer over such a record that can be strict about
//! types, lie about lengths and fail at a chosen point.

use crate::tok::Tok;
use serde::de::{self, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::{Deserialize, Deserializer, Serializer};
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<V>),
    Seq(Option<usize>, Vec<V>),
    Tuple(Vec<V>),
    Map(Option<usize>, Vec<(V, V)>),
    /// Anything else, with the name of the call.
    Other(&'static str, Vec<V>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}

// ---------------------------------------------------------------------------------------------- recording

#[derive(Clone, Copy)]
pub struct Rec<'a> {
    /// Fail when this many values have been taken.
    pub fail: Option<&'a Cell<u64>>,
}

pub struct Many<'a> {
    r: Rec<'a>,
    kind: u8,
    name: &'static str,
    len: Option<usize>,
    items: Vec<V>,
    entries: Vec<(V, V)>,
    key: Option<V>,
}

pub fn record<T: Serialize + ?Sized>(t: &T) -> Result<V, E> {
    t.serialize(Rec { fail: None })
}

impl<'a> Rec<'a> {
    fn tick(&self) -> Result<(), E> {
        if let Some(f) = self.fail {
            if f.get() == 0 {
                return Err(E("refused".into()));
            }
            f.set(f.get() - 1);
        }
        Ok(())
    }
    fn many(self, kind: u8, name: &'static str, len: Option<usize>) -> Many<'a> {
        Many { r: self, kind, name, len, items: vec![], entries: vec![], key: None }
    }
}

macro_rules! scalar {
    ($($f:ident $t:ty => $v:expr;)*) => {
        $(fn $f(self, x: $t) -> Result<V, E> { self.tick()?; #[allow(clippy::redundant_closure_call)] Ok(($v)(x)) })*
    };
}

impl<'a> Serializer for Rec<'a> {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Many<'a>;
    type SerializeTuple = Many<'a>;
    type SerializeTupleStruct = Many<'a>;
    type SerializeTupleVariant = Many<'a>;
    type SerializeMap = Many<'a>;
    type SerializeStruct = Many<'a>;
    type SerializeStructVariant = Many<'a>;
    scalar! {
        serialize_bool bool => V::Bool;
        serialize_u8 u8 => |x| V::U(x as u64);
        serialize_u16 u16 => |x| V::U(x as u64);
        serialize_u32 u32 => |x| V::U(x as u64);
        serialize_u64 u64 => V::U;
        serialize_i8 i8 => |x| V::I(x as i64);
        serialize_i16 i16 => |x| V::I(x as i64);
        serialize_i32 i32 => |x| V::I(x as i64);
        serialize_i64 i64 => V::I;
        serialize_f32 f32 => |x| V::F(x as f64);
        serialize_f64 f64 => V::F;
        serialize_char char => |x: char| V::Str(x.to_string());
        serialize_str &str => |x: &str| V::Str(x.to_string());
        serialize_bytes &[u8] => |x: &[u8]| V::Bytes(x.to_vec());
        serialize_unit_struct &'static str => |x| V::Other(x, vec![]);
    }
    fn serialize_none(self) -> Result<V, E> {
        self.tick()?;
        Ok(V::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<V, E> {
        Ok(V::Some(Box::new(t.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<V, E> {
        self.tick()?;
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<V, E> {
        Ok(V::Other(v, vec![]))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, t: &T) -> Result<V, E> {
        Ok(V::Other(n, vec![t.serialize(self)?]))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        n: &'static str,
        _: u32,
        _: &'static str,
        t: &T,
    ) -> Result<V, E> {
        Ok(V::Other(n, vec![t.serialize(self)?]))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Many<'a>, E> {
        Ok(self.many(0, "seq", len))
    }
    fn serialize_tuple(self, len: usize) -> Result<Many<'a>, E> {
        Ok(self.many(1, "tuple", Some(len)))
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Many<'a>, E> {
        Ok(self.many(3, n, Some(len)))
    }
    fn serialize_tuple_variant(self, n: &'static str, _: u32, _: &'static str, len: usize) -> Result<Many<'a>, E> {
        Ok(self.many(3, n, Some(len)))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Many<'a>, E> {
        Ok(self.many(2, "map", len))
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Many<'a>, E> {
        Ok(self.many(3, n, Some(len)))
    }
    fn serialize_struct_variant(self, n: &'static str, _: u32, _: &'static str, len: usize) -> Result<Many<'a>, E> {
        Ok(self.many(3, n, Some(len)))
    }
}

impl Many<'_> {
    fn add<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        self.items.push(t.serialize(self.r)?);
        Ok(())
    }
    fn done(self) -> Result<V, E> {
        Ok(match self.kind {
            0 => V::Seq(self.len, self.items),
            1 => V::Tuple(self.items),
            2 => V::Map(self.len, self.entries),
            _ => V::Other(self.name, self.items),
        })
    }
}
macro_rules! seqs {
    ($($t:ident $f:ident;)*) => {
        $(impl ser::$t for Many<'_> {
            type Ok = V;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> { self.add(t) }
            fn end(self) -> Result<V, E> { self.done() }
        })*
    };
}
seqs! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field;
SerializeTupleVariant serialize_field; }
impl ser::SerializeMap for Many<'_> {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        self.key = Some(t.serialize(self.r)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        let v = t.serialize(self.r)?;
        let k = self.key.take().ok_or(E("value without key".into()))?;
        self.entries.push((k, v));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        self.done()
    }
}
macro_rules! structs {
    ($($t:ident;)*) => {
        $(impl ser::$t for Many<'_> {
            type Ok = V;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, t: &T) -> Result<(), E> { self.add(t) }
            fn end(self) -> Result<V, E> { self.done() }
        })*
    };
}
structs! { SerializeStruct; SerializeStructVariant; }

// ---------------------------------------------------------------------------------------------- deserializing

/// What size hint the deserializer gives, for each sequence or map.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    Absent,
    Fixed(usize),
}

#[derive(Clone, Copy)]
pub struct How<'a> {
    pub hint: Hint,
    /// Like a format that does not describe itself: a wrong request is an error, `deserialize_any` too.
    pub strict: bool,
    /// Fails when this many values have been delivered.
    pub fail: Option<&'a Cell<u64>>,
    pub human: bool,
}

#[derive(Clone, Copy)]
pub struct De<'a> {
    pub v: &'a V,
    pub how: How<'a>,
}

impl How<'_> {
    fn tick(&self) -> Result<(), E> {
        if let Some(f) = self.fail {
            if f.get() == 0 {
                return Err(E("injected".into()));
            }
            f.set(f.get() - 1);
        }
        Ok(())
    }
    fn hint(&self, left: usize) -> Option<usize> {
        match self.hint {
            Hint::Exact => Some(left),
            Hint::Absent => None,
            Hint::Fixed(n) => Some(n),
        }
    }
}

struct Elems<'a> {
    it: std::slice::Iter<'a, V>,
    how: How<'a>,
    exact: bool,
}
impl<'de> SeqAccess<'de> for Elems<'_> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.it.next() {
            Some(v) => {
                self.how.tick()?;
                seed.deserialize(De { v, how: self.how }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        if self.exact { Some(self.it.len()) } else { self.how.hint(self.it.len()) }
    }
}

struct Entries<'a> {
    it: std::slice::Iter<'a, (V, V)>,
    value: Option<&'a V>,
    how: How<'a>,
}
impl<'de> MapAccess<'de> for Entries<'_> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.it.next() {
            Some((k, v)) => {
                self.how.tick()?;
                self.value = Some(v);
                seed.deserialize(De { v: k, how: self.how }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        self.how.tick()?;
        let v = self.value.take().ok_or(E("value asked before its key".into()))?;
        seed.deserialize(De { v, how: self.how })
    }
    fn size_hint(&self) -> Option<usize> {
        self.how.hint(self.it.len())
    }
}

impl<'a> De<'a> {
    fn visit<'de, X: Visitor<'de>>(self, vis: X) -> Result<X::Value, E> {
        match self.v {
            V::Bool(x) => vis.visit_bool(*x),
            V::U(x) => vis.visit_u64(*x),
            V::I(x) => vis.visit_i64(*x),
            V::F(x) => vis.visit_f64(*x),
            V::Str(x) => vis.visit_string(x.clone()),
            V::Bytes(x) => vis.visit_bytes(x),
            V::Unit => vis.visit_unit(),
            V::None => vis.visit_none(),
            V::Some(x) => vis.visit_some(De { v: x, how: self.how }),
            V::Seq(_, x) => vis.visit_seq(Elems { it: x.iter(), how: self.how, exact: false }),
            V::Tuple(x) => vis.visit_seq(Elems { it: x.iter(), how: self.how, exact: true }),
            V::Map(_, x) => vis.visit_map(Entries { it: x.iter(), value: None, how: self.how }),
            V::Other(_, x) => vis.visit_seq(Elems { it: x.iter(), how: self.how, exact: true }),
        }
    }
    fn only<'de, X: Visitor<'de>>(self, ok: bool, vis: X, what: &str) -> Result<X::Value, E> {
        if self.how.strict && !ok {
            return Err(E(format!("{what} asked for where there is {:?}", std::mem::discriminant(self.v))));
        }
        self.visit(vis)
    }
}

macro_rules! ask {
    ($($f:ident $p:pat => ;)*) => {
        $(fn $f<X: Visitor<'de>>(self, vis: X) -> Result<X::Value, E> {
            let ok = matches!(self.v, $p);
            self.only(ok, vis, stringify!($f))
        })*
    };
}

impl<'de> Deserializer<'de> for De<'_> {
    type Error = E;
    ask! {
        deserialize_bool V::Bool(_) => ; deserialize_u8 V::U(_) => ; deserialize_u16 V::U(_) => ; deserialize_u32 V::U(_) => ;
        deserialize_u64 V::U(_) => ; deserialize_i8 V::I(_) => ; deserialize_i16 V::I(_) => ; deserialize_i32 V::I(_) => ;
        deserialize_i64 V::I(_) => ; deserialize_f32 V::F(_) => ; deserialize_f64 V::F(_) => ; deserialize_char V::Str(_) => ;
        deserialize_str V::Str(_) => ; deserialize_string V::Str(_) => ; deserialize_bytes V::Bytes(_) => ;
        deserialize_byte_buf V::Bytes(_) => ; deserialize_unit V::Unit => ; deserialize_seq V::Seq(..) => ;
        deserialize_map V::Map(..) => ; deserialize_identifier V::Str(_) => ;
    }
    fn deserialize_any<X: Visitor<'de>>(self, vis: X) -> Result<X::Value, E> {
        if self.how.strict {
            return Err(E("this format does not describe itself".into()));
        }
        self.visit(vis)
    }
    fn deserialize_ignored_any<X: Visitor<'de>>(self, vis: X) -> Result<X::Value, E> {
        self.deserialize_any(vis)
    }
    fn deserialize_option<X: Visitor<'de>>(self, vis: X) -> Result<X::Value, E> {
        self.only(matches!(self.v, V::None | V::Some(_)), vis, "option")
    }
    fn deserialize_unit_struct<X: Visitor<'de>>(self, n: &'static str, vis: X) -> Result<X::Value, E> {
        self.only(matches!(self.v, V::Other(m, _) if *m == n), vis, n)
    }
    fn deserialize_newtype_struct<X: Visitor<'de>>(self, n: &'static str, vis: X) -> Result<X::Value, E> {
        self.only(matches!(self.v, V::Other(m, _) if *m == n), vis, n)
    }
    fn deserialize_tuple<X: Visitor<'de>>(self, n: usize, vis: X) -> Result<X::Value, E> {
        self.only(matches!(self.v, V::Tuple(x) if x.len() == n), vis, "tuple")
    }
    fn deserialize_tuple_struct<X: Visitor<'de>>(self, n: &'static str, _: usize, vis: X) -> Result<X::Value, E> {
        self.only(false, vis, n)
    }
    fn deserialize_struct<X: Visitor<'de>>(
        self,
        n: &'static str,
        _: &'static [&'static str],
        vis: X,
    ) -> Result<X::Value, E> {
        self.only(false, vis, n)
    }
    fn deserialize_enum<X: Visitor<'de>>(
        self,
        n: &'static str,
        _: &'static [&'static str],
        vis: X,
    ) -> Result<X::Value, E> {
        self.only(false, vis, n)
    }
    fn is_human_readable(&self) -> bool {
        self.how.human
    }
}

// ---------------------------------------------------------------------------------------------- elements

impl Serialize for Tok {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.pair().serialize(s)
    }
}
impl<'de> Deserialize<'de> for Tok {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tok, D::Error> {
        crate::tok::tick_new();
        let (k, u) = <(u32, u32)>::deserialize(d)?;
        Ok(Tok::new(k, u))
    }
}
