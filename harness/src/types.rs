//! Type registries: the specification's shape, and a type resolver over them.
use scale_type_resolver::{
    BitsOrderFormat, BitsStoreFormat, Field, Primitive, ResolvedTypeVisitor, TypeResolver, Variant,
};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};

/// lookups that fail: of these types, or from this one on (0: none)
#[derive(Default)]
pub struct Fault {
    pub gone: Vec<u32>,
    /// an error, or the answer that there is no such type
    pub err: bool,
    pub from: u64,
    pub once: bool,
}

#[derive(Clone, Debug)]
pub struct Fld {
    pub name: Option<String>,
    pub id: u32,
}
#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub index: u8,
    pub fields: Vec<Fld>,
}
#[derive(Clone, Debug)]
pub enum Def {
    Prim(&'static str),
    Compact(u32),
    Seq(u32),
    Arr(usize, u32),
    Tup(Vec<u32>),
    Comp(Vec<Fld>),
    Var(Vec<Var>),
    Bits(u32, bool), // store width, msb
}

#[derive(Default)]
pub struct Reg {
    pub defs: Vec<Def>,
    /// calls of resolve_type so far
    pub calls: Cell<u64>,
    /// panic (payload CAPPED) once this many calls are made
    pub cap: Cell<u64>,
    pub fault: RefCell<Fault>,
    /// lookups that failed so far
    pub faults: Cell<u64>,
}
pub const CAPPED: &str = "svh: call cap reached";

pub const PRIMS: [&str; 15] = [
    "bool", "char", "str", "u8", "u16", "u32", "u64", "u128", "u256", "i8", "i16", "i32", "i64",
    "i128", "i256",
];

fn prim(p: &str) -> Primitive {
    match p {
        "bool" => Primitive::Bool,
        "char" => Primitive::Char,
        "str" => Primitive::Str,
        "u8" => Primitive::U8,
        "u16" => Primitive::U16,
        "u32" => Primitive::U32,
        "u64" => Primitive::U64,
        "u128" => Primitive::U128,
        "u256" => Primitive::U256,
        "i8" => Primitive::I8,
        "i16" => Primitive::I16,
        "i32" => Primitive::I32,
        "i64" => Primitive::I64,
        "i128" => Primitive::I128,
        _ => Primitive::I256,
    }
}

impl Reg {
    pub fn new(defs: Vec<Def>) -> Reg {
        Reg { defs, calls: Cell::new(0), cap: Cell::new(u64::MAX), ..Reg::default() }
    }
    pub fn get(&self, id: u32) -> Option<&Def> {
        self.defs.get(id as usize)
    }
    pub fn from_json(j: &J) -> Reg {
        let defs = j.as_array().expect("reg").iter().map(def_from_json).collect();
        Reg::new(defs)
    }
    pub fn to_json(&self) -> J {
        J::Array(self.defs.iter().map(def_to_json).collect())
    }
}

pub fn text(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn untext(j: &J) -> String {
    j.as_array()
        .expect("text")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("scalar"))
        .collect()
}
pub fn flds_to_json(fs: &[Fld]) -> J {
    J::Array(
        fs.iter()
            .map(|f| {
                json!({"h": f.name.is_some(), "n": text(f.name.as_deref().unwrap_or("")), "i": f.id})
            })
            .collect(),
    )
}
pub fn flds_from_json(j: &J) -> Vec<Fld> {
    j.as_array()
        .expect("fields")
        .iter()
        .map(|f| Fld {
            name: f["h"].as_bool().unwrap().then(|| untext(&f["n"])),
            id: f["i"].as_u64().unwrap() as u32,
        })
        .collect()
}
fn def_to_json(d: &Def) -> J {
    match d {
        Def::Prim(p) => json!({"t": "prim", "p": p}),
        Def::Compact(i) => json!({"t": "compact", "i": i}),
        Def::Seq(i) => json!({"t": "seq", "i": i}),
        Def::Arr(n, i) => json!({"t": "arr", "n": n, "i": i}),
        Def::Tup(is) => json!({"t": "tup", "is": is}),
        Def::Comp(fs) => json!({"t": "comp", "fs": flds_to_json(fs)}),
        Def::Var(vs) => json!({"t": "var", "vs": vs.iter().map(|v| json!({
            "n": text(&v.name), "x": v.index, "fs": flds_to_json(&v.fields)})).collect::<Vec<_>>()}),
        Def::Bits(w, msb) => {
            json!({"t": "bits", "st": format!("u{w}"), "or": if *msb { "msb" } else { "lsb" }})
        }
    }
}
fn def_from_json(j: &J) -> Def {
    let i = || j["i"].as_u64().unwrap() as u32;
    match j["t"].as_str().unwrap() {
        "prim" => {
            let p = j["p"].as_str().unwrap();
            Def::Prim(PRIMS.iter().find(|q| **q == p).unwrap())
        }
        "compact" => Def::Compact(i()),
        "seq" => Def::Seq(i()),
        "arr" => Def::Arr(j["n"].as_u64().unwrap() as usize, i()),
        "tup" => {
            Def::Tup(j["is"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect())
        }
        "comp" => Def::Comp(flds_from_json(&j["fs"])),
        "var" => Def::Var(
            j["vs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| Var {
                    name: untext(&v["n"]),
                    index: v["x"].as_u64().unwrap() as u8,
                    fields: flds_from_json(&v["fs"]),
                })
                .collect(),
        ),
        "bits" => {
            let w: u32 = j["st"].as_str().unwrap()[1..].parse().unwrap();
            Def::Bits(w, j["or"].as_str().unwrap() == "msb")
        }
        x => panic!("bad type kind {x}"),
    }
}

#[derive(Debug)]
pub struct RegError;
impl std::fmt::Display for RegError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("registry error")
    }
}

pub fn fields_iter(fs: &[Fld]) -> impl ExactSizeIterator<Item = Field<'_, u32>> + Clone {
    fs.iter().map(|f| Field { name: f.name.as_deref(), id: f.id })
}

/// The names that types go by; none of them means anything to the library.
const PATHS: [&[&str]; 12] = [
    &[], &["Option"], &["my", "mod", "Type"], &["Result"], &["BTreeMap"], &["Cow"], &["sp_core", "crypto", "AccountId32"], &["primitive_types", "H256"],
    &["Vec"], &["WrapperKeepOpaque"], &["BTreeSet"], &["bounded_collections", "bounded_vec", "BoundedVec"],
];
impl TypeResolver for Reg {
    type TypeId = u32;
    type Error = RegError;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(
        &'this self,
        id: u32,
        visitor: V,
    ) -> Result<V::Value, RegError> {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if n > self.cap.get() {
            std::panic::panic_any(CAPPED);
        }
        {
            let f = self.fault.borrow();
            if f.from > 0 && (n == f.from || (n > f.from && !f.once)) {
                self.faults.set(self.faults.get() + 1);
                return Err(RegError);
            }
            if f.gone.contains(&id) {
                self.faults.set(self.faults.get() + 1);
                return if f.err { Err(RegError) } else { Ok(visitor.visit_not_found()) };
            }
        }
        let path = || PATHS[(id as usize * 7 + 3) % PATHS.len()].iter().copied();
        Ok(match self.get(id) {
            None => visitor.visit_not_found(),
            Some(Def::Prim(p)) => visitor.visit_primitive(prim(p)),
            Some(Def::Compact(i)) => visitor.visit_compact(*i),
            Some(Def::Seq(i)) => visitor.visit_sequence(path(), *i),
            Some(Def::Arr(n, i)) => visitor.visit_array(*i, *n),
            Some(Def::Tup(is)) => visitor.visit_tuple(is.iter().copied()),
            Some(Def::Comp(fs)) => visitor.visit_composite(path(), fields_iter(fs)),
            Some(Def::Var(vs)) => visitor.visit_variant(
                path(),
                vs.iter().map(|v| Variant {
                    index: v.index,
                    name: &v.name,
                    fields: fields_iter(&v.fields),
                }),
            ),
            Some(Def::Bits(w, msb)) => visitor.visit_bit_sequence(
                match w {
                    8 => BitsStoreFormat::U8,
                    16 => BitsStoreFormat::U16,
                    32 => BitsStoreFormat::U32,
                    _ => BitsStoreFormat::U64,
                },
                if *msb { BitsOrderFormat::Msb0 } else { BitsOrderFormat::Lsb0 },
            ),
        })
    }
}
