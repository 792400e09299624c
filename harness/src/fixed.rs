//! Types with derived implementations, next to the described ones of sd.rs.
use crate::sd::{record, From as Tree};
use scale_value::serde::{to_value, SerializerError};
use scale_value::Value;
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, VecDeque};

#[derive(Serialize, Deserialize)]
pub struct Unit;
#[derive(Serialize, Deserialize)]
pub struct P1 {
    a: u8,
    b: bool,
    name: String,
}
#[derive(Serialize, Deserialize)]
pub struct Ints {
    u8: u8,
    u16: u16,
    u32: u32,
    u64: u64,
    u128: u128,
    i8: i8,
    i16: i16,
    i32: i32,
    i64: i64,
    i128: i128,
}
#[derive(Serialize, Deserialize)]
pub struct T3(u16, char, i64);
#[derive(Serialize, Deserialize)]
pub struct Opts {
    x: Option<u8>,
    y: Option<Option<bool>>,
    z: Option<()>,
}
#[derive(Serialize, Deserialize)]
pub struct Nest {
    p: P1,
    t: T3,
    l: Vec<P1>,
    m: BTreeMap<String, (u8, i8)>,
}
#[derive(Serialize, Deserialize)]
pub enum E {
    A,
    B(u8, bool),
    C { x: i32, y: String },
    None,
    D(),
    F {},
    #[serde(rename = "with space")]
    G(char, char, char),
}
#[derive(Serialize, Deserialize)]
pub struct Es {
    e: E,
    list: Vec<E>,
    o: Option<E>,
}
#[derive(Serialize, Deserialize)]
pub struct N(u8);
#[derive(Serialize, Deserialize)]
pub enum NE {
    One(u8),
    List(Vec<u8>),
    Two(u8, u8),
}
#[derive(Serialize, Deserialize)]
pub struct Gen<T> {
    inner: T,
    count: u32,
}
#[derive(Serialize, Deserialize)]
pub struct Wrap {
    n: N,
    v: u8,
}
#[derive(Serialize, Deserialize)]
pub struct Renamed {
    #[serde(rename = "type")]
    ty: i16,
    #[serde(rename = "0")]
    zero: u64,
    #[serde(rename = "")]
    empty: char,
}

// types that hold what they read before they know what it is (their integers fit 64 bits, the most serde holds)
#[derive(Serialize, Deserialize)]
pub struct Held {
    x: u8,
    y: i64,
    s: String,
    l: Vec<u16>,
    c: char,
    t: (u64, bool),
    m: BTreeMap<String, i8>,
}
#[derive(Serialize, Deserialize)]
pub struct Flat {
    a: u8,
    #[serde(flatten)]
    held: Held,
    z: char,
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Tagged {
    A { x: u64, y: i32, c: char },
    B,
    C(Held),
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
pub enum Untagged {
    N(i64),
    S(String),
    T(i8, u8),
    R { x: u32, b: bool },
    L(Vec<String>),
}
#[derive(Serialize, Deserialize)]
pub struct FlatMany<T> {
    a: u8,
    #[serde(flatten)]
    held: One<T>,
}
#[derive(Serialize, Deserialize)]
pub struct One<T> {
    x: T,
}

// ---------------------------------------------------------------- their descriptions
fn t(k: &str) -> J {
    json!({"t": k})
}
fn x(k: &str, x: J) -> J {
    json!({"t": k, "x": x})
}
fn xs(k: &str, xs: &[J]) -> J {
    json!({"t": k, "xs": xs})
}
fn nm(n: &str) -> J {
    crate::types::text(n)
}
fn st(fs: &[(&str, J)]) -> J {
    json!({"t": "struct", "fs": fields(fs)})
}
fn fields(fs: &[(&str, J)]) -> J {
    J::Array(fs.iter().map(|(n, t)| json!({"n": nm(n), "t": t})).collect())
}
fn p1() -> J {
    st(&[("a", t("u8")), ("b", t("bool")), ("name", t("str"))])
}
fn t3() -> J {
    xs("tstruct", &[t("u16"), t("char"), t("i64")])
}
fn e() -> J {
    json!({"t": "enum", "vs": [
        {"n": nm("A"), "k": "unit"},
        {"n": nm("B"), "k": "tup", "xs": [t("u8"), t("bool")]},
        {"n": nm("C"), "k": "struct", "fs": fields(&[("x", t("i32")), ("y", t("str"))])},
        {"n": nm("None"), "k": "unit"},
        {"n": nm("D"), "k": "tup", "xs": []},
        {"n": nm("F"), "k": "struct", "fs": []},
        {"n": nm("with space"), "k": "tup", "xs": [t("char"), t("char"), t("char")]},
    ]})
}
/// the fields of a map
fn flat(fs: &[(&str, J)]) -> J {
    json!({"t": "flat", "fs": fields(fs)})
}
/// that text
fn lit(s: &str) -> J {
    json!({"t": "lit", "s": nm(s)})
}
fn held() -> Vec<(&'static str, J)> {
    vec![
        ("x", t("u8")),
        ("y", t("i64")),
        ("s", t("str")),
        ("l", x("seq", t("u16"))),
        ("c", t("char")),
        ("t", xs("tup", &[t("u64"), t("bool")])),
        ("m", x("map", t("i8"))),
    ]
}
fn flat_held() -> J {
    flat(&[vec![("a", t("u8"))], held(), vec![("z", t("char"))]].concat())
}
fn tagged() -> J {
    xs("alt", &[
        st(&[("kind", lit("A")), ("x", t("u64")), ("y", t("i32")), ("c", t("char"))]),
        st(&[("kind", lit("B"))]),
        st(&[vec![("kind", lit("C"))], held()].concat()),
    ])
}
fn untagged() -> J {
    xs("alt", &[
        t("i64"),
        t("str"),
        xs("tup", &[t("i8"), t("u8")]),
        st(&[("x", t("u32")), ("b", t("bool"))]),
        x("seq", t("str")),
    ])
}

macro_rules! fixed {
    ($($name:literal $ty:ty = $td:expr;)*) => {
        pub const NAMES: &[&str] = &[$($name),*];
        pub fn describe(name: &str) -> J {
            match name {
                $($name => $td,)*
                _ => panic!("no type {name}"),
            }
        }
        /// read that type and say what was read
        pub fn read<'de, D: Deserializer<'de>>(name: &str, d: D) -> Result<J, D::Error> {
            match name {
                $($name => <$ty>::deserialize(d).map(|x| record(&x)),)*
                _ => panic!("no type {name}"),
            }
        }
        /// the value of that type which the tree describes, turned into a Value
        pub fn write(name: &str, tree: &J) -> Result<Value<()>, SerializerError> {
            match name {
                $($name => to_value(<$ty>::deserialize(Tree(tree)).expect("a tree of the type")),)*
                _ => panic!("no type {name}"),
            }
        }
    };
}
fixed! {
    "unit" () = t("unit");
    "Unit" Unit = t("ustruct");
    "P1" P1 = p1();
    "Ints" Ints = st(&["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"].map(|i| (i, t(i))));
    "T3" T3 = t3();
    "Opts" Opts = st(&[("x", x("opt", t("u8"))), ("y", x("opt", x("opt", t("bool")))), ("z", x("opt", t("unit")))]);
    "Nest" Nest = st(&[("p", p1()), ("t", t3()), ("l", x("seq", p1())), ("m", x("map", xs("tup", &[t("u8"), t("i8")])))]);
    "E" E = e();
    "Es" Es = st(&[("e", e()), ("list", x("seq", e())), ("o", x("opt", e()))]);
    "Renamed" Renamed = st(&[("type", t("i16")), ("0", t("u64")), ("", t("char"))]);
    "GenE" Gen<E> = st(&[("inner", e()), ("count", t("u32"))]);
    "GenOpt" Gen<Option<Vec<i8>>> = st(&[("inner", x("opt", x("seq", t("i8")))), ("count", t("u32"))]);
    "vec" Vec<u64> = x("seq", t("u64"));
    "deque" VecDeque<i128> = x("seq", t("i128"));
    "vecvec" Vec<Vec<bool>> = x("seq", x("seq", t("bool")));
    "arr" [i16; 3] = xs("tup", &[t("i16"), t("i16"), t("i16")]);
    "arr0" [u8; 0] = xs("tup", &[]);
    "tup1" (u32,) = xs("tup", &[t("u32")]);
    "tup" (u8, (bool, char), String) = xs("tup", &[t("u8"), xs("tup", &[t("bool"), t("char")]), t("str")]);
    "map" BTreeMap<String, u16> = x("map", t("u16"));
    "cmap" BTreeMap<char, Vec<char>> = x("cmap", x("seq", t("char")));
    "optvec" Option<Vec<Option<u8>>> = x("opt", x("seq", x("opt", t("u8"))));
    "box" Box<P1> = p1();
    "N" N = x("nstruct", t("u8"));
    "NE" NE = json!({"t": "enum", "vs": [
        {"n": nm("One"), "k": "new", "x": t("u8")},
        {"n": nm("List"), "k": "new", "x": x("seq", t("u8"))},
        {"n": nm("Two"), "k": "tup", "xs": [t("u8"), t("u8")]}]});
    "Wrap" Wrap = st(&[("n", x("nstruct", t("u8"))), ("v", t("u8"))]);
    "Flat" Flat = flat_held();
    "Tagged" Tagged = tagged();
    "Untagged" Untagged = untagged();
    "HeldAll" Gen<(Vec<Untagged>, BTreeMap<String, Tagged>, Flat)> =
        st(&[("inner", xs("tup", &[x("seq", untagged()), x("map", tagged()), flat_held()])), ("count", t("u32"))]);
    "FlatInt" FlatMany<i64> = flat(&[("a", t("u8")), ("x", t("i64"))]);
    // what a known finding is about
    "_FlatOption" FlatMany<Option<u8>> = flat(&[("a", t("u8")), ("x", x("opt", t("u8")))]);
    "_FlatEnum" FlatMany<E> = flat(&[("a", t("u8")), ("x", e())]);
    "_FlatUnit" FlatMany<()> = flat(&[("a", t("u8")), ("x", t("unit"))]);
    // written in one way for people and in another for machines
    "Addr" std::net::Ipv4Addr = t("addr");
    "bool" bool = t("bool");
    "char" char = t("char");
    "string" String = t("str");
    "u8" u8 = t("u8");
    "u16" u16 = t("u16");
    "u32" u32 = t("u32");
    "u64" u64 = t("u64");
    "u128" u128 = t("u128");
    "i8" i8 = t("i8");
    "i16" i16 = t("i16");
    "i32" i32 = t("i32");
    "i64" i64 = t("i64");
    "i128" i128 = t("i128");
}
