//! Drives conversions, lookups, contexts, constructors and accessors.
use crate::drive::{ok, Rec};
use crate::drive_text::{gen_tname, tchar, tint, tstring, tvalue};
use crate::fixed;
use crate::gen::*;
use crate::rng::Rng;
use crate::sd::int;
use crate::types::{text, untext};
use crate::vals::{from_json, nat, to_json, V};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use serde_json::{json, Value as J};

const INTS: [&str; 10] = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];
const MARK: &str = "__bitvec__values__";
/// not the mark, but nearly
const NEAR: [&str; 9] = ["__bitvec__values_", "_bitvec__values__", "bitvec__values", "__bitvec__values___", "___bitvec__values__", "__Bitvec__Values__",
    "__bitvec__value__", "__bitvec_values__", "__bitvec__values__ "];
const KINDS: [&str; 5] = ["value", "def", "comp", "variant", "prim"];

// ---------------------------------------------------------------- pieces
/// an integer of the type, often at an edge of it or of a narrower one
fn gen_tint(r: &mut Rng, ty: &str) -> J {
    let bits: u32 = ty[1..].parse().unwrap();
    if ty.starts_with('u') {
        let max = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
        let m = match r.below(5) {
            0 => max,
            1 => max - 1,
            2 => {
                let w = *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127]);
                ((1u128 << w) - r.below(2) as u128) & max
            }
            3 => r.below(3) as u128,
            _ => gen_uint(r, bits),
        };
        int(ty, false, m)
    } else {
        let max = i128::MAX >> (128 - bits);
        let min = -max - 1;
        let v = match r.below(6) {
            0 => min,
            1 => max,
            2 => -1,
            3 => {
                let w = *r.pick(&[7, 15, 31, 63, 126]);
                let e = (1i128 << w) - r.below(3) as i128;
                (if r.pct(50) { e } else { -e }).clamp(min, max)
            }
            4 => r.below(3) as i128,
            _ => gen_int(r, bits),
        };
        int(ty, v < 0, v.unsigned_abs())
    }
}
fn gen_any_int(r: &mut Rng) -> J {
    let ty = *r.pick(&INTS);
    gen_tint(r, ty)
}
fn dstr(s: &str) -> J {
    json!({"k": "str", "s": text(s)})
}
fn fname(r: &mut Rng) -> String {
    match r.below(13) {
        0 => gen_tname(r),
        12 => r.pick(&["Name", "names", "value", "Values", "A", "aa", "0", "1", "none", "some"]).to_string(),
        1 => if r.pct(20) { r.pick(&NEAR).to_string() } else { "name".into() },
        2 => "values".into(),
        _ => r.pick(&["a", "b", "c", "d", "x", "Some", "None"]).to_string(),
    }
}
fn vname(r: &mut Rng) -> String {
    match r.below(6) {
        0 => if r.pct(12) { "".into() } else { "Some".into() },
        1 => if r.pct(12) { r.pick(&["none", "some", "NONE", "Non", "Somes"]).to_string() } else { "None".into() },
        2 => gen_tname(r),
        _ => r.pick(&["A", "B", "C"]).to_string(),
    }
}
fn dchar(r: &mut Rng) -> J {
    json!({"k": "char", "c": tchar(r) as u32})
}
// ---------------------------------------------------------------- long ones
/// where lengths have edges of their own
pub fn long(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => *r.pick(&[1023, 1024, 1025, 1100]),
        1 => *r.pick(&[511, 512, 513]),
        _ => *r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
    }
}
/// a name for each place, all of them different, or few
fn long_name(r: &mut Rng, i: usize, few: bool) -> String {
    if few { ["a", "b", "c", "name"][r.below(4)].to_string() } else { format!("f{i}") }
}
/// small things, many of them
fn long_value(r: &mut Rng) -> V {
    let n = long(r);
    let kind = r.below(4);
    let leaf = |r: &mut Rng| match kind {
        0 => u(r.byte() as u128),
        1 => node(ValueDef::Primitive(Primitive::Bool(r.pct(50)))),
        2 => u(r.byte() as u128 * 7),
        _ => if r.pct(10) { un(vec![u(1), u(2)]) } else { node(ValueDef::Primitive(Primitive::I128(-(r.byte() as i128)))) },
    };
    let few = r.pct(20);
    match r.below(8) {
        0 | 1 => un((0..n).map(|_| leaf(r)).collect()),
        2 | 3 => named((0..n).map(|i| (long_name(r, i, few), leaf(r))).collect()),
        4 => node(ValueDef::Variant(Variant { name: "A".into(), values: Composite::Unnamed((0..n).map(|_| leaf(r)).collect()) })),
        5 => node(ValueDef::Variant(Variant { name: "A".into(), values: Composite::Named((0..n).map(|i| (long_name(r, i, few), leaf(r))).collect()) })),
        6 => node(ValueDef::BitSequence((0..n).map(|_| r.pct(50)).collect())),
        _ => named(vec![(MARK.into(), un((0..n).map(|_| node(ValueDef::Primitive(Primitive::Bool(r.pct(50))))).collect()))]),
    }
}
/// as data
fn long_tree(r: &mut Rng) -> J {
    let n = long(r);
    let kind = r.below(3);
    let leaf = |r: &mut Rng| match kind {
        0 => int("u8", false, r.byte() as u128),
        1 => json!({"k": "bool", "b": r.pct(50)}),
        _ => int("i64", r.pct(50), 1 + r.byte() as u128),
    };
    let few = r.pct(20);
    let xs = |r: &mut Rng| -> Vec<J> { (0..n).map(|_| leaf(r)).collect() };
    let fs = |r: &mut Rng| -> Vec<J> { (0..n).map(|i| json!({"n": text(&long_name(r, i, few)), "v": leaf(r)})).collect() };
    match r.below(9) {
        0 => json!({"k": "seq", "xs": xs(r)}),
        1 => json!({"k": "tup", "xs": xs(r)}),
        2 => json!({"k": "tvar", "n": text("A"), "xs": xs(r)}),
        3 => json!({"k": "map", "es": fs(r).iter().map(|f| json!({"key": {"k": "str", "s": f["n"]}, "val": f["v"]})).collect::<Vec<_>>()}),
        4 => json!({"k": "struct", "fs": fs(r)}),
        5 => json!({"k": "svar", "n": text("A"), "fs": fs(r)}),
        6 => json!({"k": "bytes", "w": (0..(if r.pct(20) { 4097 } else { n })).map(|_| r.byte()).collect::<Vec<_>>()}),
        7 => {
            let xs: Vec<J> = (0..n).map(|_| json!({"k": "bool", "b": r.pct(50)})).collect();
            json!({"k": "map", "es": [{"key": dstr(MARK), "val": {"k": "seq", "xs": xs}}]})
        }
        _ => {
            let mut s = dstr(&(0..n).map(|_| tchar(r)).collect::<String>());
            s["how"] = json!(r.below(3));
            s
        }
    }
}
/// any data
pub fn gen_tree(r: &mut Rng, depth: usize) -> J {
    if r.0 % 199 == 0 {
        return long_tree(r);
    }
    if depth == 0 || r.pct(25) {
        return match r.below(15) {
            0 => json!({"k": "bool", "b": r.pct(50)}),
            1..=4 => gen_any_int(r),
            5 => dchar(r),
            6 | 7 => {
                let mut s = dstr(&tstring(r));
                s["how"] = json!(r.below(3));
                s
            }
            8 => {
                let n = if r.pct(4) { *r.pick(&[255, 256, 257, 1025, 4097]) } else { *r.pick(&[0, 1, 2, 5, 31, 32, 33]) };
                json!({"k": "bytes", "w": (0..n).map(|_| r.byte()).collect::<Vec<_>>()})
            }
            9 => json!({"k": "none"}),
            10 => json!({"k": "unit"}),
            11 => json!({"k": "ustruct"}),
            12 => json!({"k": "uvar", "n": text(&vname(r))}),
            13 if r.pct(30) => json!({"k": *r.pick(&["f32", "f64", "fail"])}),
            _ => {
                let v = tvalue(r, 2, true);
                json!({"k": "val", "v": to_json(&v.remove_context())})
            }
        };
    }
    let d = depth - 1;
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
    match r.below(14) {
        0 | 1 => json!({"k": "seq", "xs": trees(r, n, d)}),
        2 => json!({"k": "tup", "xs": trees(r, n, d)}),
        3 => json!({"k": "tstruct", "xs": trees(r, n, d)}),
        4 | 5 => json!({"k": "map", "es": entries(r, n, d)}),
        6 => json!({"k": "struct", "fs": fields(r, n, d)}),
        7 => json!({"k": "some", "x": gen_tree(r, d)}),
        8 => json!({"k": "nstruct", "x": gen_tree(r, d)}),
        9 => json!({"k": "nvar", "n": text(&vname(r)), "x": gen_tree(r, d)}),
        10 => json!({"k": "tvar", "n": text(&vname(r)), "xs": trees(r, n, d)}),
        11 => json!({"k": "svar", "n": text(&vname(r)), "fs": fields(r, n, d)}),
        12 => {
            // all booleans, perhaps under the mark
            let n = *r.pick(&[0, 1, 8, 9, 33]);
            let xs: Vec<J> = (0..n).map(|_| json!({"k": "bool", "b": r.pct(50)})).collect();
            let xs = json!({"k": "seq", "xs": xs});
            if r.pct(50) { xs } else { json!({"k": "map", "es": [{"key": dstr(MARK), "val": xs}]}) }
        }
        _ => {
            // the form of a variant, or nearly
            let name = dstr(&vname(r));
            let vals = gen_tree(r, d);
            let mut es = vec![json!({"key": dstr("name"), "val": name}), json!({"key": dstr("values"), "val": vals})];
            if r.pct(30) {
                es.swap(0, 1)
            }
            if r.pct(15) {
                es.pop();
            }
            if r.pct(10) {
                es.push(json!({"key": dstr(&fname(r)), "val": gen_tree(r, 0)}))
            }
            json!({"k": "map", "es": es})
        }
    }
}
fn trees(r: &mut Rng, n: usize, d: usize) -> Vec<J> {
    if r.pct(5) {
        // bytes, or something like them
        return (0..32).map(|_| { let ty = *r.pick(&["u8", "u8", "u16", "i64"]); int(ty, false, r.byte() as u128) }).collect();
    }
    (0..n).map(|_| gen_tree(r, d)).collect()
}
fn entries(r: &mut Rng, n: usize, d: usize) -> Vec<J> {
    (0..n)
        .map(|_| {
            let key = match r.below(20) {
                0 => dchar(r),
                1 => gen_tree(r, 0),
                2 => dstr(MARK),
                3 => json!({"k": "nstruct", "x": dstr("a")}),
                4 => json!({"k": "some", "x": dstr("a")}),
                5 if r.pct(50) => json!({"k": "uvar", "n": text(&vname(r))}),
                _ => dstr(&fname(r)),
            };
            json!({"key": key, "val": gen_tree(r, d)})
        })
        .collect()
}
fn fields(r: &mut Rng, n: usize, d: usize) -> Vec<J> {
    (0..n).map(|_| json!({"n": text(&fname(r)), "v": gen_tree(r, d)})).collect()
}

/// a described type
fn gen_td(r: &mut Rng, depth: usize, newtypes: bool) -> J {
    if depth == 0 || r.pct(25) {
        return match r.below(12) {
            0..=5 => json!({"t": *r.pick(&INTS)}),
            6 => json!({"t": "bool"}),
            7 => json!({"t": "char"}),
            8 => json!({"t": "str"}),
            9 => json!({"t": "unit"}),
            10 => json!({"t": "ustruct"}),
            _ => json!({"t": *r.pick(&INTS)}),
        };
    }
    let d = depth - 1;
    let n = *r.pick(&[0, 1, 1, 2, 2, 3]);
    let tds = |r: &mut Rng, n: usize| -> Vec<J> { (0..n).map(|_| gen_td(r, d, newtypes)).collect() };
    match r.below(if newtypes { 13 } else { 12 }) {
        0 | 1 => json!({"t": "seq", "x": gen_td(r, d, newtypes)}),
        2 => json!({"t": "tup", "xs": tds(r, n)}),
        3 => json!({"t": "tstruct", "xs": tds(r, n)}),
        4 | 5 => json!({"t": "opt", "x": gen_td(r, d, newtypes)}),
        6 => json!({"t": "map", "x": gen_td(r, d, newtypes)}),
        7 if r.pct(30) => json!({"t": "cmap", "x": gen_td(r, d, newtypes)}),
        8 | 9 => {
            let k = r.range(1, 4);
            let mut vs = vec![];
            for i in 0..k {
                let n = if i == 0 && r.pct(4) { "".into() } else if r.pct(70) { ["A", "B", "C", "None"][i].to_string() } else { format!("{}{}", gen_tname(r), i) };
                let m = *r.pick(&[0, 1, 2, 2, 3]);
                vs.push(match r.below(if newtypes { 4 } else { 3 }) {
                    0 => json!({"n": text(&n), "k": "unit"}),
                    1 => json!({"n": text(&n), "k": "tup", "xs": tds(r, m)}),
                    2 => json!({"n": text(&n), "k": "struct", "fs": td_fields(r, m, d, newtypes)}),
                    _ => json!({"n": text(&n), "k": "new", "x": gen_td(r, d, newtypes)}),
                });
            }
            json!({"t": "enum", "vs": vs})
        }
        12 => json!({"t": "nstruct", "x": gen_td(r, d, newtypes)}),
        _ => json!({"t": "struct", "fs": td_fields(r, n, d, newtypes)}),
    }
}
fn td_fields(r: &mut Rng, n: usize, d: usize, newtypes: bool) -> Vec<J> {
    let odd = r.pct(15);
    (0..n)
        .map(|i| {
            let n = if odd { format!("{}{i}", gen_tname(r)) } else { ["a", "b", "c", "d"][i].to_string() };
            json!({"n": text(&n), "t": gen_td(r, d, newtypes)})
        })
        .collect()
}
/// a datum of the type; sorted: maps as an ordered map has them
fn gen_data(r: &mut Rng, t: &J, sorted: bool) -> J {
    let arr = |x: &J| x.as_array().unwrap().clone();
    match t["t"].as_str().unwrap() {
        ty if INTS.contains(&ty) => gen_tint(r, ty),
        "bool" => json!({"k": "bool", "b": r.pct(50)}),
        "char" => dchar(r),
        "str" => dstr(&tstring(r)),
        k @ ("unit" | "ustruct") => json!({ "k": k }),
        "opt" => {
            if r.pct(40) { json!({"k": "none"}) } else { json!({"k": "some", "x": gen_data(r, &t["x"], sorted)}) }
        }
        "nstruct" => json!({"k": "nstruct", "x": gen_data(r, &t["x"], sorted)}),
        "seq" => {
            let small = matches!(t["x"]["t"].as_str(), Some("bool" | "char" | "unit" | "u8" | "i16" | "u64"));
            let n = if small && r.pct(4) { long(r) } else { *r.pick(&[0, 1, 2, 3, 5]) };
            json!({"k": "seq", "xs": (0..n).map(|_| gen_data(r, &t["x"], sorted)).collect::<Vec<_>>()})
        }
        k @ ("tup" | "tstruct") => {
            json!({"k": k, "xs": arr(&t["xs"]).iter().map(|t| gen_data(r, t, sorted)).collect::<Vec<_>>()})
        }
        k @ ("map" | "cmap") => {
            let n = *r.pick(&[0, 1, 2, 3]);
            let many = k == "map" && r.pct(2);
            let n = if many { *r.pick(&[65, 129, 257, 300]) } else { n };
            let mut keys: Vec<String> = (0..n).map(|i| if many { format!("k{i}") } else if k == "map" { fname(r) } else { tchar(r).to_string() }).collect();
            if sorted {
                keys.sort();
                keys.dedup();
            }
            let es: Vec<J> = keys
                .iter()
                .map(|s| {
                    let key = if k == "map" { dstr(s) } else { json!({"k": "char", "c": s.chars().next().unwrap() as u32}) };
                    json!({"key": key, "val": gen_data(r, &t["x"], sorted)})
                })
                .collect();
            json!({"k": "map", "es": es})
        }
        "struct" => json!({"k": "struct", "fs": data_fields(r, &t["fs"], sorted)}),
        "enum" => {
            let vs = arr(&t["vs"]);
            let v = r.pick(&vs).clone();
            match v["k"].as_str().unwrap() {
                "unit" => json!({"k": "uvar", "n": v["n"]}),
                "new" => json!({"k": "nvar", "n": v["n"], "x": gen_data(r, &v["x"], sorted)}),
                "tup" => json!({"k": "tvar", "n": v["n"], "xs": arr(&v["xs"]).iter().map(|t| gen_data(r, t, sorted)).collect::<Vec<_>>()}),
                _ => json!({"k": "svar", "n": v["n"], "fs": data_fields(r, &v["fs"], sorted)}),
            }
        }
        "flat" => {
            let es: Vec<J> = data_fields(r, &t["fs"], sorted).iter().map(|f| json!({"key": {"k": "str", "s": f["n"]}, "val": f["v"]})).collect();
            json!({"k": "map", "es": es})
        }
        "alt" => {
            let xs = arr(&t["xs"]);
            let t = r.pick(&xs).clone();
            gen_data(r, &t, sorted)
        }
        "lit" => json!({"k": "str", "s": t["s"]}),
        "addr" => dstr(&format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(10), r.below(256))),
        k => panic!("no data of {k}"),
    }
}
fn data_fields(r: &mut Rng, fs: &J, sorted: bool) -> Vec<J> {
    fs.as_array().unwrap().iter().map(|f| json!({"n": f["n"], "v": gen_data(r, &f["t"], sorted)})).collect()
}

fn un(vs: Vec<V>) -> V {
    unnamed(vs)
}
/// the value that a datum should be
pub fn shape(x: &J) -> V {
    let list = |k: &str| -> Vec<V> { x[k].as_array().unwrap().iter().map(shape).collect() };
    let fields = || -> Vec<(String, V)> { x["fs"].as_array().unwrap().iter().map(|f| (untext(&f["n"]), shape(&f["v"]))).collect() };
    let var = |n: String, c: Composite<u32>| node(ValueDef::Variant(Variant { name: n, values: c }));
    match x["k"].as_str().unwrap() {
        "bool" => node(ValueDef::Primitive(Primitive::Bool(x["b"] == true))),
        "int" => {
            let m = crate::vals::un_nat(&x["i"]);
            node(ValueDef::Primitive(if x["ty"].as_str().unwrap().starts_with('u') {
                Primitive::U128(m)
            } else if x["neg"] == true {
                Primitive::I128((m as i128).wrapping_neg())
            } else {
                Primitive::I128(m as i128)
            }))
        }
        "char" => node(ValueDef::Primitive(Primitive::Char(char::from_u32(x["c"].as_u64().unwrap() as u32).unwrap()))),
        "str" => node(ValueDef::Primitive(Primitive::String(untext(&x["s"])))),
        "none" => var("None".into(), Composite::Unnamed(vec![])),
        "some" => var("Some".into(), Composite::Unnamed(vec![shape(&x["x"])])),
        "unit" | "ustruct" => un(vec![]),
        "nstruct" => un(vec![shape(&x["x"])]),
        "seq" | "tup" | "tstruct" => un(list("xs")),
        "map" => named(
            x["es"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| {
                    let k = &e["key"];
                    (if k["k"] == "str" { untext(&k["s"]) } else { char::from_u32(k["c"].as_u64().unwrap() as u32).unwrap().to_string() }, shape(&e["val"]))
                })
                .collect(),
        ),
        "struct" => named(fields()),
        "uvar" => var(untext(&x["n"]), Composite::Unnamed(vec![])),
        "nvar" => var(untext(&x["n"]), Composite::Unnamed(vec![shape(&x["x"])])),
        "tvar" => var(untext(&x["n"]), Composite::Unnamed(list("xs"))),
        "svar" => var(untext(&x["n"]), Composite::Named(fields())),
        k => panic!("no value of {k}"),
    }
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1))
    }
}
/// other values that also fit, or nearly: fields in another order, more or fewer of them, unnamed,
/// integers in another class or out of range, other names
fn vary(r: &mut Rng, v: V, pct: usize) -> V {
    let V { value, context: _ } = v;
    let context = r.below(4) as u32;
    fn comp(r: &mut Rng, c: Composite<u32>, pct: usize) -> Composite<u32> {
        match c {
            Composite::Unnamed(vs) => {
                let mut vs: Vec<V> = vs.into_iter().map(|v| vary(r, v, pct)).collect();
                if r.pct(pct / 3) {
                    match r.below(4) {
                        0 => vs.push(gen_value(r, 1)),
                        1 => {
                            vs.pop();
                        }
                        2 => {
                            let i = r.below(vs.len() + 1);
                            vs.insert(i, gen_leaf(r))
                        }
                        _ => return Composite::Named(vs.into_iter().enumerate().map(|(i, v)| (["a", "b", "c", "d", "e", "f"][i % 6].into(), v)).collect()),
                    }
                }
                Composite::Unnamed(vs)
            }
            Composite::Named(fs) => {
                let mut fs: Vec<(String, V)> = fs.into_iter().map(|(n, v)| (n, vary(r, v, pct))).collect();
                if r.pct(pct) {
                    shuffle(r, &mut fs)
                }
                if r.pct(pct / 2) {
                    match r.below(6) {
                        0 | 1 => {
                            let i = r.below(fs.len() + 1);
                            fs.insert(i, (fname(r), gen_leaf(r)))
                        }
                        2 => {
                            fs.pop();
                        }
                        3 => return Composite::Unnamed(fs.into_iter().map(|f| f.1).collect()),
                        4 if !fs.is_empty() => {
                            // twice the same field
                            let i = r.below(fs.len());
                            let f = (fs[i].0.clone(), gen_leaf(r));
                            fs.push(f)
                        }
                        _ => {
                            let i = r.below(fs.len() + 1);
                            if i < fs.len() {
                                fs[i].0 = fname(r)
                            }
                        }
                    }
                }
                Composite::Named(fs)
            }
        }
    }
    let value = match value {
        ValueDef::Composite(c) => {
            if r.pct(pct / 6) {
                return gen_leaf(r);
            }
            ValueDef::Composite(comp(r, c, pct))
        }
        ValueDef::Variant(Variant { name, values }) => {
            let values = comp(r, values, pct);
            let name = if r.pct(pct / 4) { vname(r) } else { name };
            if r.pct(pct / 8) { ValueDef::Composite(values) } else { ValueDef::Variant(Variant { name, values }) }
        }
        ValueDef::Primitive(p) => ValueDef::Primitive(match p {
            Primitive::U128(u) if r.pct(pct) => match r.below(4) {
                0 | 1 if u <= i128::MAX as u128 => Primitive::I128(u as i128),
                2 => Primitive::U128(u.wrapping_add(1)),
                3 => Primitive::U128(tint(r)),
                _ => Primitive::U128(u),
            },
            Primitive::I128(i) if r.pct(pct) => match r.below(4) {
                0 | 1 if i >= 0 => Primitive::U128(i as u128),
                2 => Primitive::I128(i.wrapping_sub(1)),
                3 => Primitive::I128(i.wrapping_neg()),
                _ => Primitive::I128(i),
            },
            Primitive::Char(c) if r.pct(pct / 2) => Primitive::String(c.to_string()),
            Primitive::String(s) if r.pct(pct / 2) && s.chars().count() == 1 => Primitive::Char(s.chars().next().unwrap()),
            p => {
                if r.pct(pct / 6) {
                    return gen_value(r, 1);
                }
                p
            }
        }),
        b => b,
    };
    Value { value, context }
}

/// values for conversions: sometimes the documented forms, or nearly
fn dvalue(r: &mut Rng, big: bool) -> V {
    if r.0 % 61 == 0 {
        return long_value(r);
    }
    match r.below(12) {
        0 => {
            // what variants look like when written
            let mut fs: Vec<(String, V)> =
                vec![("name".into(), node(ValueDef::Primitive(Primitive::String(vname(r))))), ("values".into(), tvalue(r, 1, big))];
            if r.pct(30) {
                fs.swap(0, 1)
            }
            if r.pct(20) {
                fs.pop();
            }
            named(fs)
        }
        1 => {
            let n = *r.pick(&[0, 1, 8, 9, 40]);
            let bits = un((0..n).map(|_| node(ValueDef::Primitive(Primitive::Bool(r.pct(50))))).collect());
            let near = r.pick(&NEAR).to_string();
            match r.below(5) {
                0 => bits,
                3 => named(vec![(near, u(1))]),
                4 => named(vec![(near, bits)]),
                1 => named(vec![(MARK.into(), bits)]),
                _ => named(vec![("a".into(), u(1)), (MARK.into(), bits)]),
            }
        }
        2 => {
            let n = *r.pick(&[31, 32, 32, 33]);
            let far = r.pct(20);
            un((0..n).map(|i| u(if far && i == 5 { 256 } else { r.byte() as u128 })).collect())
        }
        _ => tvalue(r, 3, big),
    }
}

// ---------------------------------------------------------------- C23
pub fn c23(r: &mut Rng, x: &mut Rec) {
    let v = dvalue(r, false);
    let j = to_json(&v);
    x.run(json!({"op": "toval", "x": {"k": "val", "v": to_json(&v.clone().remove_context())}}));
    for _ in 0..3 {
        let part = *r.pick(&["value", "fn", "def", "part"]);
        let t = match r.below(8) {
            0 => "bits",
            1 | 2 => *r.pick(&KINDS),
            _ => match (&v.value, r.below(2)) {
                (_, 0) => *r.pick(&["value", "def"]),
                (ValueDef::Composite(_), _) => "comp",
                (ValueDef::Variant(_), _) => "variant",
                (ValueDef::Primitive(_), _) => "prim",
                _ => "bits",
            },
        };
        x.run(json!({"op": "de", "v": j, "part": part, "t": {"t": t}, "fix": ""}));
    }
}
// ---------------------------------------------------------------- C24
pub fn c24(r: &mut Rng, x: &mut Rec) {
    let v = dvalue(r, true);
    let part = *r.pick(&["value", "def", "part"]);
    x.run(json!({"op": "ser", "v": to_json(&v), "part": part}));
    let how = *r.pick(&["str", "reader"]);
    let v = dvalue(r, r.0 % 4 == 0);
    x.run(json!({"op": "json", "v": to_json(&v), "how": how}));
    for _ in 0..2 {
        let depth = r.range(0, 3);
        let t = gen_tree(r, depth);
        x.run(json!({"op": "toval", "x": t}));
        let depth = r.range(0, 3);
        let t = plain_tree(gen_tree(r, depth));
        let to = *r.pick(&["value", "value", "def", "comp", "variant", "prim", "bits"]);
        x.run(json!({"op": "any", "x": t, "as": to}));
    }
}
/// a self-describing document holds no values or failures
fn plain_tree(x: J) -> J {
    match x {
        J::Array(a) => J::Array(a.into_iter().map(plain_tree).collect()),
        J::Object(m) => {
            if m.get("k").is_some_and(|k| k == "val" || k == "fail") {
                return json!({"k": "unit"});
            }
            J::Object(m.into_iter().map(|(k, v)| (k, plain_tree(v))).collect())
        }
        x => x,
    }
}
// ---------------------------------------------------------------- C25
fn has_map(t: &J) -> bool {
    match t {
        J::Array(a) => a.iter().any(has_map),
        J::Object(m) => m.get("t").is_some_and(|t| t == "map" || t == "cmap") || m.values().any(has_map),
        _ => false,
    }
}
/// types whose own ways of reading are not described
fn held(t: &J) -> bool {
    match t {
        J::Array(a) => a.iter().any(held),
        J::Object(m) => m.get("t").is_some_and(|t| t == "flat" || t == "alt" || t == "addr") || m.values().any(held),
        _ => false,
    }
}
pub fn c25(r: &mut Rng, x: &mut Rec) {
    if r.pct(35) {
        let depth = r.range(0, 2);
        let t = gen_tree(r, depth);
        x.run(json!({"op": "toval", "x": t}));
    }
    let newtypes = r.pct(25);
    let depth = r.range(0, 3);
    let (t, fix) = if r.pct(45) {
        let n = loop {
            let n = *r.pick(fixed::NAMES);
            if !n.starts_with('_') {
                break n;
            }
        };
        (fixed::describe(n), n)
    } else {
        (gen_td(r, depth, newtypes), "")
    };
    let d = gen_data(r, &t, !fix.is_empty());
    x.run(json!({"op": "rt", "t": t, "x": d, "fix": fix}));
    if held(&t) {
        return;
    }
    let v = shape(&d);
    for _ in 0..2 {
        let pct = *r.pick(&[0, 15, 40, 80]);
        let w = vary(r, v.clone(), pct);
        let part = *r.pick(&["value", "fn", "def", "part"]);
        let f = if has_map(&t) && pct > 0 { "" } else { fix };
        x.run(json!({"op": "de", "v": to_json(&w), "part": part, "t": t, "fix": f}));
    }
    if r.pct(30) {
        // anything else
        let w = dvalue(r, true);
        let depth = r.range(0, 2);
        let t = match r.below(4) {
            0 => json!({"t": *r.pick(&["bytes", "bytebuf", "any", "value", "comp", "variant", "prim", "bits", "def"])}),
            1 => {
                let k = *r.pick(&["seq", "opt", "map", "nstruct"]);
                json!({"t": k, "x": {"t": *r.pick(&["value", "bits", "any", "prim", "bool", "bytes"])}})
            }
            _ => gen_td(r, depth, true),
        };
        let part = *r.pick(&["value", "fn", "def", "part"]);
        x.run(json!({"op": "de", "v": to_json(&w), "part": part, "t": t, "fix": ""}));
    }
}
// ---------------------------------------------------------------- C30
pub fn c30(r: &mut Rng, x: &mut Rec) {
    let depth = r.range(1, 3);
    let hint = |r: &mut Rng| *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9]);
    let t = plain_tree(gen_tree(r, depth));
    for _ in 0..2 {
        let to = *r.pick(&["value", "value", "def", "comp", "variant", "prim", "bits"]);
        let h = if to == "bits" { r.range(0, 2) } else { hint(r) };
        x.run(json!({"op": "thru", "dir": "any", "x": t, "as": to, "hint": h}));
    }
    let h = hint(r);
    let t = gen_tree(r, depth);
    x.run(json!({"op": "thru", "dir": "toval", "x": t, "hint": h}));
    let part = *r.pick(&["value", "def", "part"]);
    let v = dvalue(r, true);
    x.run(json!({"op": "thru", "dir": "ser", "v": to_json(&v), "part": part, "hint": 0}));
    let depth = r.range(0, 3);
    let t = gen_td(r, depth, true);
    let d = gen_data(r, &t, false);
    let pct = *r.pick(&[0, 0, 15, 40]);
    let w = vary(r, shape(&d), pct);
    x.run(json!({"op": "thru", "dir": "de", "v": to_json(&w), "part": part, "t": t, "hint": 0}));
}
// ---------------------------------------------------------------- C26
pub fn c26(r: &mut Rng, x: &mut Rec) {
    let v = if r.pct(2) { long_value(r) } else if r.pct(50) { tvalue(r, 4, false) } else { lookup_value(r, 3) };
    for _ in 0..3 {
        // a path of the value, perhaps leaving it somewhere
        let mut cur = Some(&v);
        let mut steps = vec![];
        for _ in 0..r.range(1, 5) {
            let c = cur.and_then(|v| match &v.value {
                ValueDef::Composite(c) => Some(c),
                ValueDef::Variant(x) => Some(&x.values),
                _ => None,
            });
            let stray = r.pct(12);
            let how = r.below(4);
            match c {
                Some(Composite::Named(fs)) if !fs.is_empty() && !stray => {
                    let i = if r.pct(25) { fs.len() - 1 } else { r.below(fs.len()) };
                    if r.pct(30) {
                        steps.push(json!({"k": "i", "i": nat(i as u128), "how": how % 3}));
                    } else {
                        // sometimes not quite the name
                        let n = &fs[i].0;
                        let n = match r.below(60) {
                            0 => n.to_uppercase(),
                            1 => n.to_lowercase(),
                            2 => format!("{n} "),
                            3 => n.chars().skip(1).collect(),
                            4 => n.chars().rev().skip(1).collect(),
                            5 => n.replace('a', "A"),
                            6 => n.trim().to_string(),
                            _ => n.clone(),
                        };
                        steps.push(json!({"k": "s", "s": text(&n), "how": how}));
                    }
                    let n = &fs[i].0;
                    cur = if steps.last().unwrap()["k"] == "i" { Some(&fs[i].1) } else { fs.iter().find(|f| f.0 == *n).map(|f| &f.1) };
                }
                Some(Composite::Unnamed(vs)) if !vs.is_empty() && !stray => {
                    let i = if r.pct(25) { vs.len() - 1 } else { r.below(vs.len()) };
                    steps.push(json!({"k": "i", "i": nat(i as u128), "how": how % 3}));
                    cur = Some(&vs[i]);
                }
                c => {
                    let n = c.map_or(0, |c| match c { Composite::Named(f) => f.len(), Composite::Unnamed(v) => v.len() });
                    if r.pct(50) {
                        let i = *r.pick(&[n as u128, n as u128 + 1, 0, 255, 256, (1 << 32) + 1, u64::MAX as u128, 1 << 63]);
                        steps.push(json!({"k": "i", "i": nat(i), "how": how % 3}));
                    } else {
                        let s = *r.pick(&["0", "1", "a", "A", "", "name", "values", "é", "Some", "Name", "NAME", "ab"]);
                        steps.push(json!({"k": "s", "s": text(s), "how": how}));
                    }
                    // where it goes from here does not matter
                    if r.pct(50) {
                        break;
                    }
                    cur = None;
                }
            }
        }
        let part = *r.pick(&["value", "value", "part"]);
        x.run(json!({"op": "at", "v": to_json(&v), "part": part, "steps": steps}));
    }
}
/// few names, so that they repeat
fn lookup_value(r: &mut Rng, depth: usize) -> V {
    if depth == 0 || r.pct(10) {
        return gen_leaf(r);
    }
    let n = *r.pick(&[1, 2, 3, 4]);
    let c = if r.pct(60) {
        Composite::Named((0..n).map(|_| (r.pick(&["a", "b", "0", "1", "A", "name", "Ab"]).to_string(), lookup_value(r, depth - 1))).collect())
    } else {
        Composite::Unnamed((0..n).map(|_| lookup_value(r, depth - 1)).collect())
    };
    node(if r.pct(40) { ValueDef::Variant(Variant { name: vname(r), values: c }) } else { ValueDef::Composite(c) })
}
// ---------------------------------------------------------------- C27
pub fn c27(r: &mut Rng, x: &mut Rec) {
    let mut v = if r.pct(1) { long_value(r) } else if r.pct(60) { tvalue(r, 4, true) } else { lookup_value(r, 4) };
    let distinct = r.pct(50);
    renumber(r, &mut v, &mut 0, distinct);
    for what in ["value", "def", "part", "remove"] {
        let mut v = v.clone();
        if what == "def" || what == "part" {
            v.context = 0
        }
        x.run(json!({"op": "mapctx", "v": to_json(&v), "what": what}));
    }
}
fn renumber(r: &mut Rng, v: &mut V, n: &mut u32, distinct: bool) {
    *n += 1;
    v.context = if distinct { 1000 + *n } else { r.below(3) as u32 };
    let c = match &mut v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => &mut x.values,
        _ => return,
    };
    match c {
        Composite::Named(fs) => fs.iter_mut().for_each(|f| renumber(r, &mut f.1, n, distinct)),
        Composite::Unnamed(vs) => vs.iter_mut().for_each(|v| renumber(r, v, n, distinct)),
    }
}
// ---------------------------------------------------------------- C28
pub fn c28(r: &mut Rng, x: &mut Rec) {
    fn bare(r: &mut Rng, depth: usize) -> J {
        let v = tvalue(r, depth, true);
        to_json(&v.remove_context())
    }
    let fs = |r: &mut Rng| -> Vec<J> {
        let n = *r.pick(&[0, 0, 1, 1, 2, 2, 3, 3, 17]);
        if r.pct(1) {
            return (0..long(r)).map(|i| json!({"n": text(&long_name(r, i, false)), "v": {"k": "bool", "b": i % 3 == 0, "ctx": 0}})).collect();
        }
        (0..n).map(|_| json!({"n": text(&fname(r)), "v": bare(r, 2)})).collect()
    };
    let vs = |r: &mut Rng| -> Vec<J> {
        let n = *r.pick(&[0, 1, 2, 3]);
        if r.pct(1) {
            return (0..long(r)).map(|i| json!({"k": "bool", "b": i % 3 == 0, "ctx": 0})).collect();
        }
        (0..n).map(|_| bare(r, 2)).collect()
    };
    fn want(r: &mut Rng, depth: usize, f: impl Fn(&V) -> bool) -> V {
        loop {
            let v = tvalue(r, depth, true);
            if f(&v) {
                return v;
            }
        }
    }
    let is_prim = |v: &V| matches!(v.value, ValueDef::Primitive(_));
    let is_comp = |v: &V| matches!(v.value, ValueDef::Composite(_));
    let is_var = |v: &V| matches!(v.value, ValueDef::Variant(_));
    let strip = |v: V| to_json(&v.remove_context());
    let top = |mut v: V| {
        v.context = 0;
        to_json(&v)
    };
    for _ in 0..3 {
        let how = *r.pick(&[
            "named_composite", "named_composite_it", "unnamed_composite", "unnamed_composite_it", "variant", "named_variant", "unnamed_variant",
            "bit_sequence", "string", "bool", "char", "u128", "i128", "prim_u128", "prim_i128", "from_bytes", "primitive", "without_context",
            "with_context", "comp_named", "comp_unnamed", "variant_fields", "from_int", "from_int", "from_int", "from_bool", "from_char",
            "from_string", "from_str", "from_bits", "from_prim", "from_comp", "from_variant", "from_vec", "from_vec_u8", "from_vec_i16",
            "from_vec_vec", "from_pairs", "from_pairs_str", "from_pairs_bool",
        ]);
        let mut ev = json!({"op": "build", "how": how});
        let tos: &[&str] = match how {
            "from_int" | "from_bool" | "from_char" | "from_string" | "from_str" => &["value", "def", "prim", "into"],
            "from_vec" | "from_vec_u8" | "from_vec_i16" | "from_vec_vec" | "from_pairs" | "from_pairs_str" | "from_pairs_bool" => &["comp", "def", "value"],
            _ => &["value", "def"],
        };
        ev["to"] = json!(*r.pick(tos));
        match how {
            "named_composite" | "named_composite_it" | "from_pairs" | "from_pairs_str" => ev["fs"] = json!(fs(r)),
            "from_pairs_bool" => {
                let n = r.below(4);
                ev["fs"] = (0..n).map(|_| json!({"n": text(&fname(r)), "v": {"k": "bool", "b": r.pct(50), "ctx": 0}})).collect()
            }
            "unnamed_composite" | "unnamed_composite_it" | "from_vec" => ev["vs"] = json!(vs(r)),
            "named_variant" => {
                ev["n"] = text(&vname(r));
                ev["fs"] = json!(fs(r))
            }
            "unnamed_variant" => {
                ev["n"] = text(&vname(r));
                ev["vs"] = json!(vs(r))
            }
            "bit_sequence" | "from_bits" => {
                let n = if r.pct(10) { long(r) } else { *r.pick(&[0, 1, 7, 8, 9, 64, 65]) };
                ev["bits"] = json!((0..n).map(|_| r.pct(50)).collect::<Vec<bool>>())
            }
            "string" | "from_string" | "from_str" => ev["x"] = dstr(&tstring(r)),
            "bool" | "from_bool" => ev["x"] = json!({"k": "bool", "b": r.pct(50)}),
            "char" | "from_char" => ev["x"] = dchar(r),
            "u128" | "prim_u128" => ev["x"] = gen_tint(r, "u128"),
            "i128" | "prim_i128" => ev["x"] = gen_tint(r, "i128"),
            "from_int" => {
                ev["x"] = match r.below(6) {
                    0 => {
                        let mut x = gen_tint(r, "u64");
                        x["ty"] = json!("usize");
                        x
                    }
                    1 => {
                        let mut x = gen_tint(r, "i64");
                        x["ty"] = json!("isize");
                        x
                    }
                    _ => gen_any_int(r),
                }
            }
            "from_bytes" | "from_vec_u8" | "from_vec_i16" | "from_vec_vec" => {
                let n = if r.pct(10) { *r.pick(&[31, 32, 33, 64, 256, 300, 513, 1025]) } else { r.below(6) };
                ev["w"] = json!((0..n).map(|_| r.byte()).collect::<Vec<_>>())
            }
            "variant" | "from_variant" => ev["v"] = strip(want(r, 2, is_var)),
            "primitive" | "from_prim" => ev["v"] = strip(want(r, 0, is_prim)),
            "from_comp" => ev["v"] = strip(want(r, 2, is_comp)),
            "without_context" => ev["v"] = bare(r, 2),
            "with_context" => {
                ev["v"] = top(tvalue(r, 2, true));
                ev["ctx"] = json!(r.below(9))
            }
            "comp_named" => ev["v"] = top(want(r, 2, |v| matches!(v.value, ValueDef::Composite(Composite::Named(_))))),
            "comp_unnamed" => ev["v"] = top(want(r, 2, |v| matches!(v.value, ValueDef::Composite(Composite::Unnamed(_))))),
            _ => ev["v"] = top(want(r, 2, is_var)),
        }
        let o = x.run(ev);
        if ok(&o) && r.pct(30) {
            let v: V = from_json(&o["v"]);
            let part = *r.pick(&["value", "part"]);
            x.run(json!({"op": "acc", "v": to_json(&v), "part": part}));
        }
    }
    let v = tvalue(r, 2, true);
    let v = if r.pct(2) { long_value(r) } else { v };
    for part in ["value", "part"] {
        x.run(json!({"op": "acc", "v": to_json(&v), "part": part}));
    }
}
