//! The serde data model as JSON trees (the specification's "data"): serializing a tree,
//! deserializing from one, recording what a Serialize impl emits, and reading a typed tree.
use crate::types::{text, untext};
use crate::vals::{bytes, from_json, nat, un_nat};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt;
use std::sync::Mutex;

/// serde wants static names
pub fn intern(s: String) -> &'static str {
    static NAMES: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = NAMES.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(&s) {
        return x;
    }
    let x: &'static str = Box::leak(s.clone().into_boxed_str());
    m.insert(s, x);
    x
}
fn name(j: &J) -> &'static str {
    intern(untext(j))
}
fn list(j: &J) -> &Vec<J> {
    j.as_array().unwrap()
}

pub fn int(ty: &str, neg: bool, mag: u128) -> J {
    json!({"k": "int", "ty": ty, "neg": neg, "i": nat(mag)})
}
fn signed(x: &J) -> i128 {
    let m = un_nat(&x["i"]);
    if x["neg"].as_bool().unwrap() { (m as i128).wrapping_neg() } else { m as i128 }
}

// ---------------------------------------------------------------- formats that fail or mislead
/// what the formats below do besides their work: fail at the nth thing asked of them, and announce odd sizes
#[derive(Clone, Copy, Default)]
pub struct Ctl {
    /// things asked so far
    pub count: u64,
    /// the one to fail at (0: none)
    pub fault: u64,
    pub fired: bool,
    /// things asked after the failure
    pub after: u64,
    pub hint: u8,
}
thread_local!(pub static CTL: Cell<Ctl> = const { Cell::new(Ctl { count: 0, fault: 0, fired: false, after: 0, hint: 0 }) });
fn tick() -> bool {
    CTL.with(|c| {
        let mut x = c.get();
        x.count += 1;
        if x.fired {
            x.after += 1;
        }
        let now = x.count == x.fault;
        x.fired |= now;
        c.set(x);
        now
    })
}
/// fails here if it is time to
macro_rules! tick {
    ($e:path) => {
        if tick() {
            return Err($e("fault"));
        }
    };
}
/// the size announced for n things; `parity`: what an honest format says
fn claim(n: usize, parity: usize) -> Option<usize> {
    match CTL.with(|c| c.get().hint) {
        0 => (n % 2 == parity).then_some(n),
        1 => None,
        2 => Some(n),
        3 => Some(0),
        4 => Some(n.saturating_sub(1)),
        5 => Some(n + 1),
        6 => Some(1_000_000),
        7 => Some(1 << 32),
        8 => Some(1 << 60),
        _ => Some(usize::MAX),
    }
}
/// the size announced where one has to be
fn claimed(n: usize) -> usize {
    claim(n, n % 2).unwrap_or(n)
}

// ---------------------------------------------------------------- serializing a tree
pub struct Sd<'a>(pub &'a J);

impl Serialize for Sd<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::*;
        tick!(S::Error::custom);
        let x = self.0;
        match x["k"].as_str().unwrap() {
            "bool" => s.serialize_bool(x["b"].as_bool().unwrap()),
            "int" => {
                let u = un_nat(&x["i"]);
                match x["ty"].as_str().unwrap() {
                    "u8" => s.serialize_u8(u as u8),
                    "u16" => s.serialize_u16(u as u16),
                    "u32" => s.serialize_u32(u as u32),
                    "u64" => s.serialize_u64(u as u64),
                    "u128" => s.serialize_u128(u),
                    "i8" => s.serialize_i8(signed(x) as i8),
                    "i16" => s.serialize_i16(signed(x) as i16),
                    "i32" => s.serialize_i32(signed(x) as i32),
                    "i64" => s.serialize_i64(signed(x) as i64),
                    "i128" => s.serialize_i128(signed(x)),
                    t => panic!("bad int {t}"),
                }
            }
            "f32" => s.serialize_f32(1.5),
            "f64" => s.serialize_f64(1.5),
            "char" => s.serialize_char(char::from_u32(x["c"].as_u64().unwrap() as u32).unwrap()),
            "str" => s.serialize_str(&untext(&x["s"])),
            "bytes" => s.serialize_bytes(&bytes(&x["w"])),
            "none" => s.serialize_none(),
            "some" => s.serialize_some(&Sd(&x["x"])),
            "unit" => s.serialize_unit(),
            "ustruct" => s.serialize_unit_struct("N"),
            "uvar" => s.serialize_unit_variant("N", 0, name(&x["n"])),
            "nstruct" => s.serialize_newtype_struct("N", &Sd(&x["x"])),
            "nvar" => s.serialize_newtype_variant("N", 0, name(&x["n"]), &Sd(&x["x"])),
            "seq" => {
                let xs = list(&x["xs"]);
                let mut q = s.serialize_seq(claim(xs.len(), 0))?;
                for e in xs {
                    q.serialize_element(&Sd(e))?;
                }
                q.end()
            }
            "tup" => {
                let xs = list(&x["xs"]);
                let mut q = s.serialize_tuple(claimed(xs.len()))?;
                for e in xs {
                    q.serialize_element(&Sd(e))?;
                }
                q.end()
            }
            "tstruct" => {
                let xs = list(&x["xs"]);
                let mut q = s.serialize_tuple_struct("N", claimed(xs.len()))?;
                for e in xs {
                    q.serialize_field(&Sd(e))?;
                }
                q.end()
            }
            "tvar" => {
                let xs = list(&x["xs"]);
                let mut q = s.serialize_tuple_variant("N", 0, name(&x["n"]), claimed(xs.len()))?;
                for e in xs {
                    q.serialize_field(&Sd(e))?;
                }
                q.end()
            }
            "map" => {
                let es = list(&x["es"]);
                let mut q = s.serialize_map(claim(es.len(), 1))?;
                for (i, e) in es.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Sd(&e["key"]), &Sd(&e["val"]))?;
                    } else {
                        q.serialize_key(&Sd(&e["key"]))?;
                        q.serialize_value(&Sd(&e["val"]))?;
                    }
                }
                q.end()
            }
            "struct" => {
                let fs = list(&x["fs"]);
                let mut q = s.serialize_struct("N", claimed(fs.len()))?;
                for f in fs {
                    q.serialize_field(name(&f["n"]), &Sd(&f["v"]))?;
                }
                q.end()
            }
            "svar" => {
                let fs = list(&x["fs"]);
                let mut q = s.serialize_struct_variant("N", 0, name(&x["n"]), claimed(fs.len()))?;
                for f in fs {
                    q.serialize_field(name(&f["n"]), &Sd(&f["v"]))?;
                }
                q.end()
            }
            "val" => from_json::<u32>(&x["v"]).serialize(s),
            "fail" => Err(S::Error::custom("fails")),
            k => panic!("bad data {k}"),
        }
    }
}

// ---------------------------------------------------------------- recording what is serialized
#[derive(Debug)]
pub struct RecErr(pub String);
impl fmt::Display for RecErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecErr {}
impl ser::Error for RecErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecErr(m.to_string())
    }
}
impl de::Error for RecErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecErr(m.to_string())
    }
}

/// `hints`: also record the announced lengths
#[derive(Clone, Copy)]
pub struct Record {
    pub hints: bool,
}
pub fn record<T: Serialize + ?Sized>(t: &T) -> J {
    t.serialize(Record { hints: false }).unwrap_or_else(|e| json!({"k": "failed", "e": e.0}))
}
pub struct RecList(Record, J, Vec<J>, Option<J>);
impl RecList {
    fn fin(mut self, field: &str) -> Result<J, RecErr> {
        self.1[field] = J::Array(self.2);
        Ok(self.1)
    }
}
impl Record {
    fn start(self, k: &str, n: Option<&str>, len: Option<usize>) -> RecList {
        let mut j = json!({"k": k});
        if let Some(n) = n {
            j["n"] = text(n);
        }
        if self.hints {
            j["h"] = json!(len.map_or(-1, |l| l as i64));
        }
        RecList(self, j, vec![], None)
    }
}
macro_rules! rec_int {
    ($($f:ident $t:ident),*) => {$(
        fn $f(self, v: $t) -> Result<J, RecErr> {
            tick!(RecErr::custom);
            #[allow(unused_comparisons)]
            Ok(int(stringify!($t), v < 0, if v < 0 { (v as i128).unsigned_abs() } else { v as u128 }))
        }
    )*}
}
use ser::Error as _;
impl Serializer for Record {
    type Ok = J;
    type Error = RecErr;
    type SerializeSeq = RecList;
    type SerializeTuple = RecList;
    type SerializeTupleStruct = RecList;
    type SerializeTupleVariant = RecList;
    type SerializeMap = RecList;
    type SerializeStruct = RecList;
    type SerializeStructVariant = RecList;
    rec_int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
             serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128);
    fn serialize_bool(self, v: bool) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "bool", "b": v}))
    }
    fn serialize_f32(self, _: f32) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "f32"}))
    }
    fn serialize_f64(self, _: f64) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "f64"}))
    }
    fn serialize_char(self, v: char) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "char", "c": v as u32}))
    }
    fn serialize_str(self, v: &str) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "str", "s": text(v)}))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "bytes", "w": v}))
    }
    fn serialize_none(self) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "none"}))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "some", "x": v.serialize(self)?}))
    }
    fn serialize_unit(self) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "unit"}))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "ustruct"}))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "uvar", "n": text(n)}))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "nstruct", "x": v.serialize(self)?}))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        Ok(json!({"k": "nvar", "n": text(n), "x": v.serialize(self)?}))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<RecList, RecErr> {
            tick!(RecErr::custom);
        Ok(self.start("seq", None, len))
    }
    fn serialize_tuple(self, len: usize) -> Result<RecList, RecErr> {
            tick!(RecErr::custom);
        Ok(self.start("tup", None, Some(len)))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<RecList, RecErr> {
            tick!(RecErr::custom);
        Ok(self.start("tstruct", None, Some(len)))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, len: usize) -> Result<RecList, RecErr> {
            tick!(RecErr::custom);
        Ok(self.start("tvar", Some(n), Some(len)))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<RecList, RecErr> {
            tick!(RecErr::custom);
        Ok(self.start("map", None, len))
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<RecList, RecErr> {
            tick!(RecErr::custom);
        Ok(self.start("struct", None, Some(len)))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, len: usize) -> Result<RecList, RecErr> {
            tick!(RecErr::custom);
        Ok(self.start("svar", Some(n), Some(len)))
    }
}
macro_rules! rec_seq {
    ($($tr:ident $f:ident),*) => {$(
        impl ser::$tr for RecList {
            type Ok = J;
            type Error = RecErr;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
            tick!(RecErr::custom);
                self.2.push(v.serialize(self.0)?);
                Ok(())
            }
            fn end(self) -> Result<J, RecErr> {
            tick!(RecErr::custom);
                self.fin("xs")
            }
        }
    )*}
}
rec_seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for RecList {
    type Ok = J;
    type Error = RecErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), RecErr> {
            tick!(RecErr::custom);
        self.3 = Some(k.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
            tick!(RecErr::custom);
        let v = v.serialize(self.0)?;
        let k = self.3.take().expect("key before value");
        self.2.push(json!({"key": k, "val": v}));
        Ok(())
    }
    fn end(self) -> Result<J, RecErr> {
            tick!(RecErr::custom);
        self.fin("es")
    }
}
macro_rules! rec_struct {
    ($($tr:ident),*) => {$(
        impl ser::$tr for RecList {
            type Ok = J;
            type Error = RecErr;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, n: &'static str, v: &T) -> Result<(), RecErr> {
            tick!(RecErr::custom);
                let v = v.serialize(self.0)?;
                self.2.push(json!({"n": text(n), "v": v}));
                Ok(())
            }
            fn end(self) -> Result<J, RecErr> {
            tick!(RecErr::custom);
                self.fin("fs")
            }
        }
    )*}
}
rec_struct!(SerializeStruct, SerializeStructVariant);

// ---------------------------------------------------------------- deserializing from a tree
/// A self-describing format whose documents are data trees.
#[derive(Clone, Copy)]
pub struct From<'a>(pub &'a J);

struct Items<'a>(std::slice::Iter<'a, J>, Option<&'a J>);
impl<'de> SeqAccess<'de> for Items<'_> {
    type Error = RecErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, RecErr> {
        tick!(de::Error::custom);
        self.0.next().map(|x| s.deserialize(From(x))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        claim(self.0.len(), 0)
    }
}
impl<'de> MapAccess<'de> for Items<'_> {
    type Error = RecErr;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, RecErr> {
        tick!(de::Error::custom);
        match self.0.next() {
            None => Ok(None),
            Some(e) => {
                self.1 = Some(e.get("val").unwrap_or(&e["v"]));
                match e.get("key") {
                    Some(k) => s.deserialize(From(k)).map(Some),
                    None => {
                        let n = json!({"k": "str", "s": e["n"]});
                        s.deserialize(From(&n)).map(Some)
                    }
                }
            }
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, RecErr> {
        tick!(de::Error::custom);
        s.deserialize(From(self.1.take().expect("value after key")))
    }
    fn size_hint(&self) -> Option<usize> {
        claim(self.0.len(), 0)
    }
}
fn items(x: &J) -> Items<'_> {
    Items(list(x).iter(), None)
}
impl<'de> Deserializer<'de> for From<'_> {
    type Error = RecErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
        tick!(de::Error::custom);
        let x = self.0;
        match x["k"].as_str().unwrap() {
            "bool" => v.visit_bool(x["b"].as_bool().unwrap()),
            "int" => {
                let u = un_nat(&x["i"]);
                match x["ty"].as_str().unwrap() {
                    "u8" => v.visit_u8(u as u8),
                    "u16" => v.visit_u16(u as u16),
                    "u32" => v.visit_u32(u as u32),
                    "u64" => v.visit_u64(u as u64),
                    "u128" => v.visit_u128(u),
                    "i8" => v.visit_i8(signed(x) as i8),
                    "i16" => v.visit_i16(signed(x) as i16),
                    "i32" => v.visit_i32(signed(x) as i32),
                    "i64" => v.visit_i64(signed(x) as i64),
                    _ => v.visit_i128(signed(x)),
                }
            }
            "f32" => v.visit_f32(1.5),
            "f64" => v.visit_f64(1.5),
            "char" => v.visit_char(char::from_u32(x["c"].as_u64().unwrap() as u32).unwrap()),
            "str" => {
                let s = untext(&x["s"]);
                match x["how"].as_u64() {
                    Some(1) => v.visit_string(s),
                    Some(2) => v.visit_borrowed_str(intern(s)),
                    _ => v.visit_str(&s),
                }
            }
            "bytes" => {
                let b = bytes(&x["w"]);
                if b.len() % 2 == 0 { v.visit_bytes(&b) } else { v.visit_byte_buf(b) }
            }
            "none" => v.visit_none(),
            "some" => v.visit_some(From(&x["x"])),
            "unit" | "ustruct" => v.visit_unit(),
            "nstruct" => v.visit_newtype_struct(From(&x["x"])),
            "seq" | "tup" | "tstruct" => v.visit_seq(items(&x["xs"])),
            "map" => v.visit_map(items(&x["es"])),
            "struct" => v.visit_map(items(&x["fs"])),
            "uvar" | "nvar" | "tvar" | "svar" => v.visit_enum(self),
            k => panic!("bad data {k}"),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> EnumAccess<'de> for From<'_> {
    type Error = RecErr;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), RecErr> {
        tick!(de::Error::custom);
        let n = json!({"k": "str", "s": self.0["n"]});
        Ok((s.deserialize(From(&n))?, self))
    }
}
impl<'de> VariantAccess<'de> for From<'_> {
    type Error = RecErr;
    fn unit_variant(self) -> Result<(), RecErr> {
        tick!(de::Error::custom);
        if self.0["k"] == "uvar" { Ok(()) } else { Err(RecErr("not a unit variant".into())) }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, RecErr> {
        tick!(de::Error::custom);
        let x = self.0;
        match x["k"].as_str().unwrap() {
            "nvar" => s.deserialize(From(&x["x"])),
            "uvar" => s.deserialize(From(&json!({"k": "unit"}))),
            "tvar" => s.deserialize(From(&json!({"k": "seq", "xs": x["xs"]}))),
            _ => s.deserialize(From(&json!({"k": "struct", "fs": x["fs"]}))),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, RecErr> {
        tick!(de::Error::custom);
        v.visit_seq(items(&self.0["xs"]))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, RecErr> {
        tick!(de::Error::custom);
        v.visit_map(items(&self.0["fs"]))
    }
}

// ---------------------------------------------------------------- reading a typed tree
/// Reads data of the described type, the way derived implementations do.
#[derive(Clone, Copy)]
pub struct Td<'a>(pub &'a J);

fn statics(fs: &[J]) -> &'static [&'static str] {
    Box::leak(fs.iter().map(|f| name(&f["n"])).collect::<Vec<_>>().into_boxed_slice())
}
fn node(v: scale_value::Value<()>) -> J {
    crate::vals::to_json(&v)
}
impl<'de> DeserializeSeed<'de> for Td<'_> {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        use serde::Deserialize;
        tick!(de::Error::custom);
        let t = self.0;
        macro_rules! num {
            ($t:ident) => {{
                let v = <$t>::deserialize(d)?;
                #[allow(unused_comparisons)]
                Ok(int(stringify!($t), v < 0, if v < 0 { (v as i128).unsigned_abs() } else { v as u128 }))
            }};
        }
        match t["t"].as_str().unwrap() {
            "u8" => num!(u8),
            "u16" => num!(u16),
            "u32" => num!(u32),
            "u64" => num!(u64),
            "u128" => num!(u128),
            "i8" => num!(i8),
            "i16" => num!(i16),
            "i32" => num!(i32),
            "i64" => num!(i64),
            "i128" => num!(i128),
            "bool" => Ok(json!({"k": "bool", "b": bool::deserialize(d)?})),
            "char" => Ok(json!({"k": "char", "c": char::deserialize(d)? as u32})),
            "str" => Ok(json!({"k": "str", "s": text(&String::deserialize(d)?)})),
            "any" => de::IgnoredAny::deserialize(d).map(|_| json!({"k": "any"})),
            "value" => Ok(json!({"k": "val", "v": node(scale_value::Value::deserialize(d)?)})),
            "def" => {
                let v = scale_value::ValueDef::deserialize(d)?;
                Ok(json!({"k": "val", "v": node(scale_value::Value::without_context(v))}))
            }
            "comp" => Ok(json!({"k": "val", "v": node(scale_value::Composite::deserialize(d)?.into())})),
            "variant" => Ok(json!({"k": "val", "v": node(scale_value::Variant::deserialize(d)?.into())})),
            "prim" => Ok(json!({"k": "val", "v": node(scale_value::Value::primitive(scale_value::Primitive::deserialize(d)?))})),
            "bits" => Ok(json!({"k": "val", "v": node(scale_value::Value::bit_sequence(scale_value::BitSequence::deserialize(d)?))})),
            "unit" => d.deserialize_unit(self),
            "ustruct" => d.deserialize_unit_struct("N", self),
            "opt" => d.deserialize_option(self),
            "nstruct" => d.deserialize_newtype_struct("N", self),
            "bytes" => d.deserialize_bytes(self),
            "bytebuf" => d.deserialize_byte_buf(self),
            "seq" => d.deserialize_seq(self),
            "tup" => d.deserialize_tuple(list(&t["xs"]).len(), self),
            "tstruct" => d.deserialize_tuple_struct("N", list(&t["xs"]).len(), self),
            "map" | "cmap" => d.deserialize_map(self),
            "struct" => d.deserialize_struct("N", statics(list(&t["fs"])), self),
            "enum" => d.deserialize_enum("N", statics(list(&t["vs"])), self),
            k => panic!("bad type {k}"),
        }
    }
}
fn tuple<'de, A: SeqAccess<'de>>(ts: &J, mut a: A) -> Result<J, A::Error> {
    let mut out = vec![];
    for (i, t) in list(ts).iter().enumerate() {
        match a.next_element_seed(Td(t))? {
            Some(x) => out.push(x),
            None => return Err(de::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(J::Array(out))
}
/// the fields of a struct, from a sequence or a map
struct Fields<'a>(&'a J);
impl<'de> Visitor<'de> for Fields<'_> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct N")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        tick!(de::Error::custom);
        let mut out = vec![];
        for (i, f) in list(self.0).iter().enumerate() {
            match a.next_element_seed(Td(&f["t"]))? {
                Some(x) => out.push(json!({"n": f["n"], "v": x})),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(J::Array(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        tick!(de::Error::custom);
        let fs = list(self.0);
        let mut got: Vec<Option<J>> = vec![None; fs.len()];
        while let Some(k) = a.next_key_seed(Ident)? {
            match fs.iter().position(|f| k.as_deref() == Some(&untext(&f["n"]))) {
                Some(i) if got[i].is_some() => return Err(de::Error::duplicate_field(name(&fs[i]["n"]))),
                Some(i) => got[i] = Some(a.next_value_seed(Td(&fs[i]["t"]))?),
                None => {
                    a.next_value::<de::IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for (f, g) in fs.iter().zip(got) {
            match g {
                Some(x) => out.push(json!({"n": f["n"], "v": x})),
                // a missing field can only be read as an absent option
                None if f["t"]["t"] == "opt" => out.push(json!({"n": f["n"], "v": {"k": "none"}})),
                None => return Err(de::Error::missing_field(name(&f["n"]))),
            }
        }
        Ok(J::Array(out))
    }
}
struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<String>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<String>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = Option<String>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
        tick!(de::Error::custom);
        Ok(Some(v.into()))
    }
}
impl<'de> Visitor<'de> for Td<'_> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0["t"])
    }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> {
        tick!(de::Error::custom);
        match self.0["t"].as_str().unwrap() {
            "unit" => Ok(json!({"k": "unit"})),
            "ustruct" => Ok(json!({"k": "ustruct"})),
            "opt" => Ok(json!({"k": "none"})),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<J, E> {
        tick!(de::Error::custom);
        match self.0["t"].as_str().unwrap() {
            "opt" => Ok(json!({"k": "none"})),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        tick!(de::Error::custom);
        match self.0["t"].as_str().unwrap() {
            "opt" => Ok(json!({"k": "some", "x": Td(&self.0["x"]).deserialize(d)?})),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        tick!(de::Error::custom);
        match self.0["t"].as_str().unwrap() {
            "nstruct" => Ok(json!({"k": "nstruct", "x": Td(&self.0["x"]).deserialize(d)?})),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<J, E> {
        tick!(de::Error::custom);
        match self.0["t"].as_str().unwrap() {
            "bytes" | "bytebuf" => Ok(json!({"k": "bytes", "w": b})),
            _ => Err(E::invalid_type(de::Unexpected::Bytes(b), &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        tick!(de::Error::custom);
        let t = self.0;
        match t["t"].as_str().unwrap() {
            "seq" => {
                let mut out = vec![];
                while let Some(x) = a.next_element_seed(Td(&t["x"]))? {
                    out.push(x);
                }
                Ok(json!({"k": "seq", "xs": out}))
            }
            k @ ("tup" | "tstruct") => Ok(json!({"k": k, "xs": tuple(&t["xs"], a)?})),
            "nstruct" => match a.next_element_seed(Td(&t["x"]))? {
                Some(x) => Ok(json!({"k": "nstruct", "x": x})),
                None => Err(de::Error::invalid_length(0, &self)),
            },
            "struct" => Ok(json!({"k": "struct", "fs": Fields(&t["fs"]).visit_seq(a)?})),
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        tick!(de::Error::custom);
        let t = self.0;
        match t["t"].as_str().unwrap() {
            k @ ("map" | "cmap") => {
                let kt = json!({"t": if k == "map" { "str" } else { "char" }});
                let mut out = vec![];
                while let Some(key) = a.next_key_seed(Td(&kt))? {
                    out.push(json!({"key": key, "val": a.next_value_seed(Td(&t["x"]))?}));
                }
                Ok(json!({"k": "map", "es": out}))
            }
            "struct" => Ok(json!({"k": "struct", "fs": Fields(&t["fs"]).visit_map(a)?})),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        tick!(de::Error::custom);
        let t = self.0;
        if t["t"] != "enum" {
            return Err(de::Error::invalid_type(de::Unexpected::Enum, &self));
        }
        let (n, c) = a.variant_seed(Ident)?;
        let vs = list(&t["vs"]);
        let Some(v) = vs.iter().find(|v| n.as_deref() == Some(&untext(&v["n"]))) else {
            return Err(de::Error::unknown_variant(&n.unwrap_or_default(), statics(vs)));
        };
        match v["k"].as_str().unwrap() {
            "unit" => c.unit_variant().map(|_| json!({"k": "uvar", "n": v["n"]})),
            "new" => Ok(json!({"k": "nvar", "n": v["n"], "x": c.newtype_variant_seed(Td(&v["x"]))?})),
            "tup" => Ok(json!({"k": "tvar", "n": v["n"], "xs": c.tuple_variant(list(&v["xs"]).len(), Elems(&v["xs"]))?})),
            _ => Ok(json!({"k": "svar", "n": v["n"], "fs": c.struct_variant(statics(list(&v["fs"])), Fields(&v["fs"]))?})),
        }
    }
}
struct Elems<'a>(&'a J);
impl<'de> Visitor<'de> for Elems<'_> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple variant")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        tick!(de::Error::custom);
        tuple(self.0, a)
    }
}
