//! Values to and from the specification's JSON form.
use crate::types::{text, untext};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use serde_json::{json, Value as J};

pub type V = Value<u32>;

fn mag(mut m: u128) -> J {
    let mut d = vec![];
    while m > 0 {
        d.push((m & 255) as u8);
        m >>= 8;
    }
    json!(d)
}
fn unmag(j: &J) -> u128 {
    j.as_array().unwrap().iter().rev().fold(0u128, |a, b| (a << 8) | b.as_u64().unwrap() as u128)
}
fn w32(j: &J) -> [u8; 32] {
    let mut w = [0; 32];
    for (i, b) in j.as_array().unwrap().iter().enumerate() {
        w[i] = b.as_u64().unwrap() as u8
    }
    w
}
pub fn bytes(j: &J) -> Vec<u8> {
    j.as_array().expect("bytes").iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

pub trait Ctx: Clone {
    fn num(&self) -> u32;
    fn of(n: u32) -> Self;
}
impl Ctx for u32 {
    fn num(&self) -> u32 {
        *self
    }
    fn of(n: u32) -> Self {
        n
    }
}
impl Ctx for () {
    fn num(&self) -> u32 {
        0
    }
    fn of(_: u32) {}
}

pub fn nat(m: u128) -> J {
    mag(m)
}
pub fn un_nat(j: &J) -> u128 {
    unmag(j)
}

pub fn prim_to_json(p: &Primitive) -> serde_json::Map<String, J> {
    let j = match p {
        Primitive::Bool(b) => json!({"k": "bool", "b": b}),
        Primitive::Char(c) => json!({"k": "char", "c": *c as u32}),
        Primitive::String(s) => json!({"k": "str", "s": text(s)}),
        Primitive::U128(u) => json!({"k": "u128", "u": mag(*u)}),
        Primitive::I128(i) => json!({"k": "i128", "neg": *i < 0, "i": mag(i.unsigned_abs())}),
        Primitive::U256(w) => json!({"k": "u256", "w": w}),
        Primitive::I256(w) => json!({"k": "i256", "w": w}),
    };
    match j {
        J::Object(m) => m,
        _ => unreachable!(),
    }
}
/// an object (json! copies what it is given, which takes long at depth)
pub fn obj<const N: usize>(fs: [(&str, J); N]) -> serde_json::Map<String, J> {
    fs.into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}
/// how deep the JSON of a value is
pub fn nesting<C>(v: &Value<C>) -> usize {
    match &v.value {
        ValueDef::Composite(c) => comp_nesting(c),
        ValueDef::Variant(x) => 1 + comp_nesting(&x.values),
        _ => 2,
    }
}
fn comp_nesting<C>(c: &Composite<C>) -> usize {
    let n = c.values().map(nesting).max().unwrap_or(0);
    n + if matches!(c, Composite::Named(_)) { 3 } else { 2 }
}
pub fn comp_to_json<C: Ctx>(c: &Composite<C>) -> serde_json::Map<String, J> {
    match c {
        Composite::Named(fs) => obj([
            ("k", "named".into()),
            ("fs", fs.iter().map(|(n, v)| J::Object(obj([("n", text(n)), ("v", to_json(v))]))).collect()),
        ]),
        Composite::Unnamed(vs) => obj([("k", "unnamed".into()), ("vs", vs.iter().map(to_json).collect())]),
    }
}
pub fn bits_to_json(b: &BitSequence) -> J {
    json!(b.iter().collect::<Vec<bool>>())
}
pub fn to_json<C: Ctx>(v: &Value<C>) -> J {
    let mut m = match &v.value {
        ValueDef::Primitive(p) => prim_to_json(p),
        ValueDef::Composite(c) => comp_to_json(c),
        ValueDef::Variant(x) => {
            let mut m = serde_json::Map::new();
            m.insert("k".into(), json!("var"));
            m.insert("n".into(), text(&x.name));
            m.insert("c".into(), J::Object(comp_to_json(&x.values)));
            m
        }
        ValueDef::BitSequence(b) => {
            let mut m = serde_json::Map::new();
            m.insert("k".into(), json!("bits"));
            m.insert("bits".into(), bits_to_json(b));
            m
        }
    };
    m.insert("ctx".into(), json!(v.context.num()));
    J::Object(m)
}
pub fn comp_from_json<C: Ctx>(j: &J) -> Composite<C> {
    match j["k"].as_str().unwrap() {
        "named" => Composite::Named(
            j["fs"].as_array().unwrap().iter().map(|f| (untext(&f["n"]), from_json(&f["v"]))).collect(),
        ),
        "unnamed" => Composite::Unnamed(j["vs"].as_array().unwrap().iter().map(from_json).collect()),
        k => panic!("not a composite: {k}"),
    }
}
pub fn from_json<C: Ctx>(j: &J) -> Value<C> {
    let value = match j["k"].as_str().expect("k") {
        "bool" => ValueDef::Primitive(Primitive::Bool(j["b"].as_bool().unwrap())),
        "char" => ValueDef::Primitive(Primitive::Char(
            char::from_u32(j["c"].as_u64().unwrap() as u32).unwrap(),
        )),
        "str" => ValueDef::Primitive(Primitive::String(untext(&j["s"]))),
        "u128" => ValueDef::Primitive(Primitive::U128(unmag(&j["u"]))),
        "i128" => {
            let m = unmag(&j["i"]);
            let i = if j["neg"].as_bool().unwrap() { (m as i128).wrapping_neg() } else { m as i128 };
            ValueDef::Primitive(Primitive::I128(i))
        }
        "u256" => ValueDef::Primitive(Primitive::U256(w32(&j["w"]))),
        "i256" => ValueDef::Primitive(Primitive::I256(w32(&j["w"]))),
        "bits" => {
            let mut b = BitSequence::new();
            for x in j["bits"].as_array().unwrap() {
                b.push(x.as_bool().unwrap());
            }
            ValueDef::BitSequence(b)
        }
        "named" | "unnamed" => ValueDef::Composite(comp_from_json(j)),
        "var" => ValueDef::Variant(Variant { name: untext(&j["n"]), values: comp_from_json(&j["c"]) }),
        k => panic!("bad value kind {k}"),
    };
    Value { value, context: C::of(j["ctx"].as_u64().unwrap_or(0) as u32) }
}
