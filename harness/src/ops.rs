//! Calls that do not touch the session's buffer, cursor or registry: conversions through serde,
//! lookups, contexts, constructors and accessors.
use crate::exec::{outcome, Out};
use crate::sd::{int, Record, Sd, Td};
use crate::types::{text, untext};
use crate::vals::{bits_to_json, bytes, comp_from_json, comp_to_json, from_json, nat, to_json, un_nat, Ctx, V};
use scale_value::serde::{from_value, to_value, SerializerError};
use scale_value::{At, BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::rc::Rc;

pub fn call(ev: &J) -> Out {
    match ev["op"].as_str().unwrap() {
        "ser" => ser(ev),
        "toval" => toval(ev),
        "any" => any(ev),
        "de" => de(ev),
        "rt" => rt(ev),
        "json" => json_text(ev),
        "at" => at(ev),
        "mapctx" => mapctx(ev),
        "build" => build(ev),
        "acc" => acc(ev),
        "thru" => thru(ev),
        x => outcome(json!({"r": "badop", "op": x})),
    }
}

fn err() -> Out {
    outcome(json!({"r": "err"}))
}
fn node(v: &Value<()>) -> J {
    to_json(v)
}

// ---------------------------------------------------------------- serde
fn ser(ev: &J) -> Out {
    let v: V = from_json(&ev["v"]);
    let rec = Record { hints: true };
    let r = match (ev["part"].as_str().unwrap(), v.value) {
        ("value", value) => Value { value, context: v.context }.serialize(rec),
        ("def", value) => value.serialize(rec),
        (_, ValueDef::Primitive(p)) => p.serialize(rec),
        (_, ValueDef::Composite(c)) => c.serialize(rec),
        (_, ValueDef::Variant(x)) => x.serialize(rec),
        (_, value) => value.serialize(rec),
    };
    match r {
        Ok(t) => outcome(json!({"r": "ok", "t": t})),
        Err(_) => err(),
    }
}

fn sererr(e: &SerializerError) -> &'static str {
    match e {
        SerializerError::Custom(_) => "custom",
        SerializerError::CannotSerializeFloats => "float",
        SerializerError::MapKeyMustBeStringlike => "key",
    }
}
fn toval(ev: &J) -> Out {
    match to_value(Sd(&ev["x"])) {
        Ok(v) => outcome(json!({"r": "ok", "v": node(&v)})),
        Err(e) => outcome(json!({"r": "err", "e": sererr(&e)})),
    }
}

fn any(ev: &J) -> Out {
    let d = crate::sd::From(&ev["x"]);
    match Td(&json!({"t": ev["as"]})).deserialize(d) {
        Ok(x) => outcome(json!({"r": "ok", "v": x["v"]})),
        Err(_) => err(),
    }
}

fn de(ev: &J) -> Out {
    let v: V = from_json(&ev["v"]);
    let t = Td(&ev["t"]);
    let fix = ev["fix"].as_str().unwrap_or("");
    macro_rules! from {
        ($d:expr) => {{
            let d = $d;
            if fix.is_empty() { t.deserialize(d).map_err(|_| ()) } else { crate::fixed::read(fix, d).map_err(|_| ()) }
        }};
    }
    let r = match (ev["part"].as_str().unwrap(), v.value) {
        ("value", value) => from!(Value { value, context: v.context }),
        // the public function for a value of one's own type
        ("fn", value) => {
            struct T(J);
            thread_local!(static WHAT: RefCell<(J, String)> = RefCell::new((J::Null, String::new())));
            impl<'de> Deserialize<'de> for T {
                fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<T, D::Error> {
                    let (t, fix) = WHAT.with(|w| w.borrow().clone());
                    if fix.is_empty() { Td(&t).deserialize(d).map(T) } else { crate::fixed::read(&fix, d).map(T) }
                }
            }
            WHAT.with(|w| *w.borrow_mut() = (ev["t"].clone(), fix.to_string()));
            from_value::<u32, T>(Value { value, context: v.context }).map(|t| t.0).map_err(|_| ())
        }
        ("def", value) => from!(value),
        (_, ValueDef::Primitive(p)) => from!(p),
        (_, ValueDef::Composite(c)) => from!(c),
        (_, ValueDef::Variant(x)) => from!(x),
        (_, value) => from!(value),
    };
    match r {
        Ok(x) => outcome(json!({"r": "ok", "x": x})),
        Err(()) => err(),
    }
}

fn rt(ev: &J) -> Out {
    let fix = ev["fix"].as_str().unwrap_or("");
    let v = if fix.is_empty() { to_value(Sd(&ev["x"])) } else { crate::fixed::write(fix, &ev["x"]) };
    let v = match v {
        Ok(v) => v,
        Err(e) => return outcome(json!({"r": "err", "e": sererr(&e)})),
    };
    let j = node(&v);
    let b = if fix.is_empty() { Td(&ev["t"]).deserialize(v) } else { crate::fixed::read(fix, v) };
    outcome(match b {
        Ok(x) => json!({"r": "ok", "v": j, "back": true, "x": x}),
        Err(_) => json!({"r": "ok", "v": j, "back": false}),
    })
}

fn json_text(ev: &J) -> Out {
    let v: V = from_json(&ev["v"]);
    let Ok(s) = serde_json::to_string(&v) else { return err() };
    // borrowed text, or text read through a reader
    let b: Result<Value<()>, _> = match ev["how"].as_str().unwrap() {
        "str" => serde_json::from_str(&s),
        _ => serde_json::from_reader(s.as_bytes()),
    };
    outcome(match b {
        Ok(b) => json!({"r": "ok", "s": text(&s), "back": true, "v": node(&b)}),
        Err(_) => json!({"r": "ok", "s": text(&s), "back": false}),
    })
}

// ---------------------------------------------------------------- formats that fail or mislead
/// The error of a format or of a type's own implementation, where the call fails
fn said(e: &dyn std::fmt::Display) -> &'static str {
    // (the library may say that an error is a custom one)
    if e.to_string().ends_with("fault") { "fault" } else { "other" }
}
fn through(ev: &J) -> (Out, &'static str) {
    match ev["dir"].as_str().unwrap() {
        "any" => {
            let d = crate::sd::From(&ev["x"]);
            match Td(&json!({"t": ev["as"]})).deserialize(d) {
                Ok(x) => (outcome(json!({"r": "ok", "v": x["v"]})), "none"),
                Err(e) => (err(), said(&e)),
            }
        }
        "ser" => {
            let v: V = from_json(&ev["v"]);
            let rec = Record { hints: true };
            let r = match (ev["part"].as_str().unwrap(), v.value) {
                ("def", value) => value.serialize(rec),
                ("part", ValueDef::Primitive(p)) => p.serialize(rec),
                ("part", ValueDef::Composite(c)) => c.serialize(rec),
                ("part", ValueDef::Variant(x)) => x.serialize(rec),
                (_, value) => Value { value, context: v.context }.serialize(rec),
            };
            match r {
                Ok(t) => (outcome(json!({"r": "ok", "t": t})), "none"),
                Err(e) => (err(), said(&e)),
            }
        }
        "toval" => match to_value(Sd(&ev["x"])) {
            Ok(v) => (outcome(json!({"r": "ok", "v": node(&v)})), "none"),
            Err(e) => (outcome(json!({"r": "err", "e": sererr(&e)})), said(&e)),
        },
        _ => {
            let v: V = from_json(&ev["v"]);
            let t = Td(&ev["t"]);
            let r = match (ev["part"].as_str().unwrap(), v.value) {
                ("def", value) => t.deserialize(value).map_err(|e| said(&e)),
                ("part", ValueDef::Primitive(p)) => t.deserialize(p).map_err(|e| said(&e)),
                ("part", ValueDef::Composite(c)) => t.deserialize(c).map_err(|e| said(&e)),
                ("part", ValueDef::Variant(x)) => t.deserialize(x).map_err(|e| said(&e)),
                (_, value) => t.deserialize(Value { value, context: v.context }).map_err(|e| said(&e)),
            };
            match r {
                Ok(x) => (outcome(json!({"r": "ok", "x": x})), "none"),
                Err(e) => (err(), e),
            }
        }
    }
}
/// once as it is, then failing at every point
fn thru(ev: &J) -> Out {
    use crate::sd::{Ctl, CTL};
    let hint = ev["hint"].as_u64().unwrap_or(0) as u8;
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CTL.with(|c| c.set(Ctl::default()))
        }
    }
    let _reset = Reset;
    CTL.with(|c| c.set(Ctl { hint, ..Ctl::default() }));
    let m = crate::exec::mem_start();
    let (mut out, _) = through(ev);
    let mem = crate::exec::mem_peak(m).min(1 << 30);
    let n = CTL.with(|c| c.get().count);
    let mut faults = vec![];
    for k in 1..=n.min(60) {
        CTL.with(|c| c.set(Ctl { hint, fault: k, ..Ctl::default() }));
        let (o, e) = through(ev);
        faults.push(json!({"r": o["r"], "e": e, "after": CTL.with(|c| c.get().after)}));
    }
    // what the result takes when written down, as a measure of what was asked for
    let kib = J::Object(out.clone()).to_string().len() / 1024;
    out.insert("n".into(), json!(n));
    out.insert("kib".into(), json!(kib));
    out.insert("mem".into(), json!(mem));
    out.insert("faults".into(), J::Array(faults));
    out
}

// ---------------------------------------------------------------- lookups
fn at(ev: &J) -> Out {
    let v: V = from_json(&ev["v"]);
    let steps = ev["steps"].as_array().unwrap();
    fn step<'a, T: At<u32>>(x: T, s: &J, life: &'a V) -> Option<&'a V> {
        let _ = life;
        // the result borrows from the whole value, which outlives every step
        let r: Option<*const V> = match s["k"].as_str().unwrap() {
            "i" => {
                let i = un_nat(&s["i"]) as usize;
                match s["how"].as_u64() {
                    Some(1) => x.at(&i),
                    Some(2) => x.at(&&i),
                    _ => x.at(i),
                }
            }
            _ => {
                let n = untext(&s["s"]);
                match s["how"].as_u64() {
                    Some(1) => x.at(&n),
                    Some(2) => x.at(n),
                    Some(3) => x.at(&&*n),
                    _ => x.at(&*n),
                }
            }
        }
        .map(|p| p as *const V);
        r.map(|p| unsafe { &*p })
    }
    let got = {
        let mut it = steps.iter();
        let first = it.next().expect("a step");
        let mut cur: Option<&V> = match (ev["part"].as_str().unwrap(), &v.value) {
            ("part", ValueDef::Composite(c)) => step_part(c, first, &v),
            ("part", ValueDef::Variant(x)) => step_variant(x, first, &v),
            _ => step_value(&v, first),
        };
        for s in it {
            cur = step(cur, s, &v);
        }
        cur
    };
    fn step_value<'a>(v: &'a V, s: &J) -> Option<&'a V> {
        step(Some(v), s, v).filter(|r| by_ref(v, s) == Some(*r as *const V))
    }
    fn by_ref(v: &V, s: &J) -> Option<*const V> {
        match s["k"].as_str().unwrap() {
            "i" => v.at(un_nat(&s["i"]) as usize),
            _ => v.at(&*untext(&s["s"])),
        }
        .map(|p| p as *const V)
    }
    fn step_part<'a>(c: &'a Composite<u32>, s: &J, v: &'a V) -> Option<&'a V> {
        step(Some(c), s, v)
    }
    fn step_variant<'a>(c: &'a Variant<u32>, s: &J, v: &'a V) -> Option<&'a V> {
        step(Some(c), s, v)
    }
    match got {
        Some(v) => outcome(json!({"r": "ok", "v": to_json(v)})),
        None => outcome(json!({"r": "none"})),
    }
}

// ---------------------------------------------------------------- contexts
fn mapctx(ev: &J) -> Out {
    let v: V = from_json(&ev["v"]);
    if ev["what"] == "remove" {
        return outcome(json!({"r": "ok", "v": node(&v.remove_context()), "log": []}));
    }
    let log: Rc<RefCell<Vec<u32>>> = Rc::new(RefCell::new(vec![]));
    let l = log.clone();
    // the new context is the number of the call that gave it
    let f = move |c: u32| -> u32 {
        let mut l = l.borrow_mut();
        l.push(c);
        l.len() as u32
    };
    let j = match (ev["what"].as_str().unwrap(), v.value) {
        ("value", value) => to_json(&Value { value, context: v.context }.map_context(f)),
        ("part", ValueDef::Composite(c)) => {
            to_json(&Value { value: ValueDef::Composite(c.map_context(f)), context: 0 })
        }
        ("part", ValueDef::Variant(x)) => to_json(&Value { value: ValueDef::Variant(x.map_context(f)), context: 0 }),
        (_, value) => to_json(&Value { value: value.map_context(f), context: 0 }),
    };
    let log = log.borrow().clone();
    outcome(json!({"r": "ok", "v": j, "log": log}))
}

// ---------------------------------------------------------------- constructors
fn sint(x: &J) -> i128 {
    let m = un_nat(&x["i"]);
    if x["neg"].as_bool().unwrap() { (m as i128).wrapping_neg() } else { m as i128 }
}
fn unit(v: V) -> Value<()> {
    v.remove_context()
}
fn tree(j: &J) -> Value<()> {
    unit(from_json(j))
}
fn pairs(j: &J) -> Vec<(String, Value<()>)> {
    j.as_array().unwrap().iter().map(|f| (untext(&f["n"]), tree(&f["v"]))).collect()
}
fn values(j: &J) -> Vec<Value<()>> {
    j.as_array().unwrap().iter().map(tree).collect()
}
fn bitseq(j: &J) -> BitSequence {
    j.as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect()
}
fn prim_node(p: Primitive) -> J {
    node(&Value::primitive(p))
}
fn def_node(d: ValueDef<()>) -> J {
    node(&Value { value: d, context: () })
}
fn ctx_def(d: ValueDef<u32>, c: u32) -> J {
    to_json(&Value { value: d, context: c })
}

fn build(ev: &J) -> Out {
    let how = ev["how"].as_str().unwrap();
    let x = &ev["x"];
    let to = ev["to"].as_str().unwrap_or("value");
    macro_rules! conv {
        ($e:expr) => {
            match to {
                "prim" => prim_node(Primitive::from($e)),
                "def" => def_node(ValueDef::from($e)),
                "into" => {
                    let v: Value<()> = $e.into();
                    node(&v)
                }
                _ => node(&Value::from($e)),
            }
        };
    }
    macro_rules! conv2 {
        ($e:expr) => {
            match to {
                "comp" => node(&Value::from(Composite::from($e))),
                "def" => def_node(ValueDef::from($e)),
                _ => node(&Value::from($e)),
            }
        };
    }
    let s = || untext(&x["s"]);
    let c = || char::from_u32(x["c"].as_u64().unwrap() as u32).unwrap();
    let v = match how {
        "named_composite" => node(&Value::named_composite(pairs(&ev["fs"]))),
        "named_composite_it" => {
            let p = pairs(&ev["fs"]);
            node(&Value::named_composite(p.iter().map(|(n, v)| (n.as_str(), v.clone()))))
        }
        "unnamed_composite" => node(&Value::unnamed_composite(values(&ev["vs"]))),
        "unnamed_composite_it" => node(&Value::unnamed_composite(values(&ev["vs"]).into_iter().filter(|_| true))),
        "variant" => {
            let Value { value: ValueDef::Variant(w), .. } = tree(&ev["v"]) else { return err() };
            node(&Value::variant(w.name, w.values))
        }
        "named_variant" => node(&Value::named_variant(untext(&ev["n"]), pairs(&ev["fs"]))),
        "unnamed_variant" => node(&Value::unnamed_variant(untext(&ev["n"]), values(&ev["vs"]))),
        "bit_sequence" => node(&Value::bit_sequence(bitseq(&ev["bits"]))),
        "string" => node(&Value::string(s())),
        "bool" => node(&Value::bool(x["b"].as_bool().unwrap())),
        "char" => node(&Value::char(c())),
        "u128" => node(&Value::u128(un_nat(&x["i"]))),
        "i128" => node(&Value::i128(sint(x))),
        "prim_u128" => prim_node(Primitive::u128(un_nat(&x["i"]))),
        "prim_i128" => prim_node(Primitive::i128(sint(x))),
        "from_bytes" => {
            let b = bytes(&ev["w"]);
            match b.len() % 3 {
                0 => node(&Value::from_bytes(b)),
                1 => node(&Value::from_bytes(&b[..])),
                _ => node(&Value::from_bytes(&b)),
            }
        }
        "primitive" => {
            let Value { value: ValueDef::Primitive(p), .. } = tree(&ev["v"]) else { return err() };
            node(&Value::primitive(p))
        }
        "without_context" => node(&Value::without_context(tree(&ev["v"]).value)),
        "with_context" => {
            let v: V = from_json(&ev["v"]);
            to_json(&Value::with_context(v.value, ev["ctx"].as_u64().unwrap() as u32))
        }
        "comp_named" => {
            let Composite::Named(fs) = comp_from_json::<u32>(&ev["v"]) else { return err() };
            ctx_def(ValueDef::Composite(Composite::named(fs)), 0)
        }
        "comp_unnamed" => {
            let Composite::Unnamed(vs) = comp_from_json::<u32>(&ev["v"]) else { return err() };
            ctx_def(ValueDef::Composite(Composite::unnamed(vs)), 0)
        }
        "variant_fields" => {
            let V { value: ValueDef::Variant(w), .. } = from_json(&ev["v"]) else { return err() };
            let w = match w.values {
                Composite::Named(fs) => Variant::named_fields(w.name, fs),
                Composite::Unnamed(vs) => Variant::unnamed_fields(w.name.as_str(), vs),
            };
            ctx_def(ValueDef::Variant(w), 0)
        }
        // conversions
        "from_int" => {
            let u = un_nat(&x["i"]);
            let i = || sint(x);
            match x["ty"].as_str().unwrap() {
                "u8" => conv!(u as u8),
                "u16" => conv!(u as u16),
                "u32" => conv!(u as u32),
                "u64" => conv!(u as u64),
                "u128" => conv!(u),
                "usize" => conv!(u as usize),
                "i8" => conv!(i() as i8),
                "i16" => conv!(i() as i16),
                "i32" => conv!(i() as i32),
                "i64" => conv!(i() as i64),
                "i128" => conv!(i()),
                _ => conv!(i() as isize),
            }
        }
        "from_bool" => conv!(x["b"].as_bool().unwrap()),
        "from_char" => conv!(c()),
        "from_string" => conv!(s()),
        "from_str" => conv!(s().as_str()),
        "from_bits" => match to {
            "def" => def_node(ValueDef::from(bitseq(&ev["bits"]))),
            _ => node(&Value::from(bitseq(&ev["bits"]))),
        },
        "from_prim" => {
            let Value { value: ValueDef::Primitive(p), .. } = tree(&ev["v"]) else { return err() };
            def_node(ValueDef::from(p))
        }
        "from_comp" => {
            let Value { value: ValueDef::Composite(p), .. } = tree(&ev["v"]) else { return err() };
            if to == "def" { def_node(ValueDef::from(p)) } else { node(&Value::from(p)) }
        }
        "from_variant" => {
            let Value { value: ValueDef::Variant(p), .. } = tree(&ev["v"]) else { return err() };
            if to == "def" { def_node(ValueDef::from(p)) } else { node(&Value::from(p)) }
        }
        "from_vec" => conv2!(values(&ev["vs"])),
        "from_vec_u8" => conv2!(bytes(&ev["w"])),
        "from_vec_i16" => {
            let w: Vec<i16> = bytes(&ev["w"]).into_iter().map(|b| b as i8 as i16).collect();
            conv2!(w)
        }
        "from_vec_vec" => conv2!(vec![bytes(&ev["w"]), vec![7]]),
        "from_pairs" => conv2!(pairs(&ev["fs"])),
        "from_pairs_str" => {
            let p = pairs(&ev["fs"]);
            let q: Vec<(&str, Value<()>)> = p.iter().map(|(n, v)| (n.as_str(), v.clone())).collect();
            conv2!(q)
        }
        "from_pairs_bool" => {
            let q: Vec<(String, bool)> = ev["fs"].as_array().unwrap().iter().map(|f| (untext(&f["n"]), f["v"]["b"] == true)).collect();
            conv2!(q)
        }
        h => return outcome(json!({"r": "badop", "op": h})),
    };
    outcome(json!({"r": "ok", "v": v}))
}

// ---------------------------------------------------------------- accessors
fn acc(ev: &J) -> Out {
    let v: V = from_json(&ev["v"]);
    fn opt<T>(o: Option<T>, f: impl Fn(T) -> J) -> J {
        o.map_or(json!({"has": false}), |x| json!({"has": true, "x": f(x)}))
    }
    macro_rules! scalars {
        ($p:expr) => {{
            let p = $p;
            json!({
                "bool": opt(p.as_bool(), |b| json!({"k": "bool", "b": b})),
                "char": opt(p.as_char(), |c| json!({"k": "char", "c": c as u32})),
                "u128": opt(p.as_u128(), |u| int("u128", false, u)),
                "i128": opt(p.as_i128(), |i| json!({"k": "int", "ty": "i128", "neg": i < 0, "i": nat(i.unsigned_abs())})),
                "str": opt(p.as_str(), |s| json!({"k": "str", "s": text(s)})),
            })
        }};
    }
    fn comp<C: Ctx>(c: &Composite<C>) -> J {
        let mut it = c.values();
        let mut lens = vec![it.len()];
        let mut vs = vec![];
        while let Some(v) = it.next() {
            vs.push(to_json(v));
            lens.push(it.len());
        }
        let mut it = c.clone().into_values();
        let mut own = vec![];
        let mut olens = vec![it.len()];
        while let Some(v) = it.next() {
            own.push(to_json(&v));
            olens.push(it.len());
        }
        json!({"len": c.len(), "empty": c.is_empty(), "values": vs, "lens": lens, "own": own, "olens": olens, "same": comp_to_json(c)})
    }
    let mut j = match (&v.value, ev["part"].as_str().unwrap()) {
        (ValueDef::Primitive(p), "part") => json!({"sc": scalars!(p), "isc": false}),
        (ValueDef::Composite(c), "part") => json!({"c": comp(c), "isc": true}),
        (ValueDef::Variant(x), "part") => json!({"c": comp(&x.values), "isc": true, "n": text(&x.name)}),
        (ValueDef::BitSequence(b), "part") => json!({"isc": false, "bits": bits_to_json(b)}),
        _ => json!({"sc": scalars!(&v), "isc": false}),
    };
    j["r"] = json!("ok");
    outcome(j)
}
