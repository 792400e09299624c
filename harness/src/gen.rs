//! Random types, values that fit them, values that nearly fit them, and bytes.
use crate::rng::Rng;
use crate::types::*;
use crate::vals::{to_json, V};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};

pub const NAMES: [&str; 14] = [
    "a", "b", "c", "foo", "_x", "r1", "Some", "None", "é", "na me", "", "true", "x:y", "日本",
];
/// Names that are easily taken for one another: prefixes, suffixes, other cases, digits.
pub const ALIKE: [&str; 16] =
    ["a", "A", "aa", "ab", "b", "ba", "foo", "foob", "ofoo", "Foo", "0", "1", "2", "10", "", "a "];
pub const VALIKE: [&str; 10] = ["A", "a", "AB", "B", "AA", "0", "1", "10", "", "A "];
/// Names with some meaning somewhere, or odd in some way.
pub const ODD: [&str; 72] = [
    "r#type", "r#a", "r#", "type", "fn", "self", "Self", "crate", "super", "_", "__", "_a", "__a", "a_", "_0", "field", "field0", "field_0",
    "f0", "item", "value", "values", "name", "key", "index", "0", "00", "01", "+1", "-1", "1_0", "0x0", "1a", "a1", "[0]", "(0)", "a.b", "a::b",
    "a-b", "a b", " a", "a ", "\ta", "\n", "\r\n", "\0", "aB", "ab", "Ab", "AB", "$a", "#a", "@a", "&a", "*", "%", "\\", "'a'", "\"a\"", "`a`",
    "<unnamed>", "<a>", "None", "Some", "true", "false", "nil", "\u{1d54f}", "é", "e\u{301}", "ß", "İ",
];
/// A name for a field or variant of which nothing is known.
pub fn gen_name(r: &mut Rng) -> String {
    let n = *r.pick(&ODD);
    match r.below(12) {
        0 => n.to_uppercase(),
        1 => format!("r#{n}"),
        2 => format!("{n}{}", r.pick(&ODD)),
        3 => format!("_{n}"),
        4 => {
            let k = r.range(1, 6);
            (0..k).map(|_| crate::drive_text::tchar(r)).collect()
        }
        _ => n.to_string(),
    }
}

// How deep values get: where to stop on the way down if possible, where to give up, and how many nodes.
thread_local! {
    static LIM: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((4, 14)) };
    static NODES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Few and shallow values, or long ways down.
pub fn set_deep(soft: usize) {
    LIM.set(if soft > 4 { (soft, soft + 14) } else { (4, 14) })
}
pub fn is_deep() -> bool {
    LIM.get().0 > 4
}
/// None: too deep. Some(true): go no deeper than necessary.
pub fn depth_now(depth: usize) -> Option<bool> {
    let (soft, hard) = LIM.get();
    let n = if depth <= 1 { 0 } else { NODES.get() + 1 };
    NODES.set(n);
    (depth <= hard).then_some(depth > soft || n > 250)
}
pub fn how_many(r: &mut Rng, last: bool) -> usize {
    match () {
        _ if last => 0,
        _ if is_deep() => *r.pick(&[0, 1, 1, 1, 1, 1, 1, 2]),
        _ if r.pct(2) => r.range(60, 70),
        _ => r.below(4),
    }
}
/// lists of small things are sometimes long
pub fn long_list(r: &mut Rng, reg: &Reg, i: u32) -> Option<usize> {
    (r.0 % 67 == 0 && matches!(reg.get(i), Some(Def::Prim("bool" | "u8" | "u16" | "i8" | "i32" | "char"))))
        .then(|| *r.pick(&[127, 128, 129, 255, 256, 257, 300, 513]))
}
pub fn which<'a>(r: &mut Rng, vs: &'a [Var], last: bool) -> &'a Var {
    match () {
        _ if last => &vs[0],
        _ if is_deep() && r.pct(97) => vs.iter().max_by_key(|v| v.fields.len()).unwrap(),
        _ => r.pick(vs),
    }
}

pub const VNAMES: [&str; 10] = ["A", "B", "C", "Some", "None", "Ok", "Err", "true", "v a", "é"];
pub const CHARS: [char; 24] = [
    'a', 'z', 'A', '0', '9', ' ', '_', '"', '\'', '\\', '\n', '\t', '\r', '\0', '{', '(', ',', '<', 'é', 'ß',
    '中', '😀', '\u{301}', '\u{a0}',
];

pub struct TypeOpts {
    pub chars: bool,
    pub w256: bool,
    pub dups: bool,
}
pub const PLAIN: TypeOpts = TypeOpts { chars: false, w256: false, dups: false };
pub const ANY: TypeOpts = TypeOpts { chars: true, w256: true, dups: false };

fn gen_prim(r: &mut Rng, o: &TypeOpts) -> &'static str {
    loop {
        let p = *r.pick(&PRIMS);
        match p {
            "char" if !o.chars => continue,
            "u256" | "i256" if !o.w256 || !r.pct(30) => continue,
            _ => return p,
        }
    }
}

pub fn gen_fields(r: &mut Rng, n: usize, ids: &[u32], o: &TypeOpts) -> Vec<Fld> {
    // named, unnamed, or (rarely) mixed
    let mode = r.below(20);
    let odd = some_names(r, n.max(4));
    let mut names: Vec<&str> = match r.below(12) {
        0..=4 => NAMES.to_vec(),
        5..=7 => ALIKE.to_vec(),
        8 => ["0", "1", "2", "3", "4", ""].to_vec(),
        _ => odd.iter().map(|s| &**s).collect(),
    };
    (0..n)
        .map(|_| {
            let id = *r.pick(ids);
            let named = match mode {
                0..=9 => true,
                10..=18 => false,
                _ => r.pct(50),
            };
            let name = named.then(|| {
                let k = r.below(names.len());
                if o.dups && r.pct(10) { names[k].to_string() } else { names.remove(k).to_string() }
            });
            Fld { name, id }
        })
        .collect()
}
/// different names
fn some_names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    while out.len() < n {
        let s = gen_name(r);
        if !out.contains(&s) {
            out.push(s)
        }
    }
    out
}
fn nfields(r: &mut Rng) -> usize {
    *r.pick(&[0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4])
}

/// A registry of about n types; ids are shuffled so that they carry no meaning.
pub fn gen_reg(r: &mut Rng, n: usize, o: &TypeOpts) -> Reg {
    let mut defs: Vec<Def> = vec![];
    let np = r.range(2, 5);
    for _ in 0..np {
        defs.push(Def::Prim(gen_prim(r, o)));
    }
    if r.pct(60) {
        defs.push(Def::Prim("u8"))
    }
    if r.pct(40) {
        defs.push(match r.below(4) {
            0 | 1 => Def::Tup(vec![]),
            2 => Def::Comp(vec![]),
            _ => Def::Arr(0, 0),
        })
    }
    while defs.len() < n {
        let ids: Vec<u32> = (0..defs.len() as u32).collect();
        // prefer recent ones, for depth
        let id = if r.pct(40) { ids[ids.len() - 1] } else { *r.pick(&ids) };
        let me = defs.len() as u32;
        let d = match r.below(22) {
            0 => Def::Prim(gen_prim(r, o)),
            1 | 2 => Def::Compact({
                // something that can be compact, mostly
                let ok: Vec<u32> = ids.iter().copied().filter(|i| compactable(&defs, *i)).collect();
                if ok.is_empty() || r.pct(10) { id } else { *r.pick(&ok) }
            }),
            3..=5 => {
                // (a few bytes can claim any number of items that take none)
                let ok: Vec<u32> = ids.iter().copied().filter(|i| !zero_sized(&defs, *i)).collect();
                Def::Seq(if zero_sized(&defs, id) { *r.pick(&ok) } else { id })
            }
            6 | 7 => Def::Arr(*r.pick(&[0, 1, 1, 1, 2, 3]), id),
            8..=10 => {
                let n = nfields(r);
                Def::Tup((0..n).map(|_| if r.pct(30) { id } else { *r.pick(&ids) }).collect())
            }
            11..=15 => {
                let n = nfields(r);
                let mut fs = gen_fields(r, n, &ids, o);
                if let Some(f) = fs.first_mut() {
                    f.id = id
                }
                Def::Comp(fs)
            }
            16..=18 => Def::Var(gen_variants(r, &ids, o)),
            19 => Def::Bits(*r.pick(&[8, 16, 32, 64]), r.pct(50)),
            20 => {
                // recursive list or tree
                if r.pct(50) {
                    Def::Var(vec![
                        Var { name: "Nil".into(), index: r.byte() % 4, fields: vec![] },
                        Var {
                            name: "Cons".into(),
                            index: 4 + r.byte() % 100,
                            fields: vec![Fld { name: None, id }, Fld { name: None, id: me }],
                        },
                    ])
                } else {
                    defs.push(Def::Seq(me + 1));
                    Def::Comp(vec![
                        Fld { name: Some("val".into()), id },
                        Fld { name: Some("kids".into()), id: me },
                    ])
                }
            }
            _ => Def::Comp(vec![Fld { name: r.pct(40).then(|| r.pick(&NAMES).to_string()), id }]),
        };
        defs.push(d);
    }
    if r.pct(14) {
        // wrappers around wrappers
        let mut id = r.below(defs.len()) as u32;
        if r.pct(40) && !zero_sized(&defs, id) {
            defs.push(Def::Seq(id));
            id = defs.len() as u32 - 1;
        }
        let style = r.below(5);
        for _ in 0..*r.pick(&[5, 8, 9, 10, 12, 16, 17, 20, 24]) {
            defs.push(match if style == 4 { r.below(4) } else { style } {
                0 => Def::Tup(vec![id]),
                1 => Def::Comp(vec![Fld { name: Some(r.pick(&NAMES).to_string()), id }]),
                2 => Def::Comp(vec![Fld { name: None, id }]),
                _ => Def::Arr(1, id),
            });
            id = defs.len() as u32 - 1;
        }
    }
    if r.pct(15) {
        // long or wide ones of small things
        let ids: Vec<u32> = (0..defs.len() as u32).filter(|i| matches!(defs[*i as usize], Def::Prim("bool" | "u8" | "u16" | "i8" | "i32" | "u64"))).collect();
        let ids = if ids.is_empty() {
            defs.push(Def::Prim("u8"));
            vec![defs.len() as u32 - 1]
        } else {
            ids
        };
        let n = *r.pick(&[16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300]);
        let few = n.min(130);
        defs.push(match r.below(6) {
            0 | 1 => Def::Arr(n, *r.pick(&ids)),
            2 => Def::Tup((0..few).map(|_| *r.pick(&ids)).collect()),
            3 => Def::Comp((0..few).map(|i| Fld { name: Some(format!("f{i}")), id: *r.pick(&ids) }).collect()),
            4 => Def::Comp((0..few).map(|_| Fld { name: None, id: *r.pick(&ids) }).collect()),
            _ => Def::Var((0..few).map(|i| Var { name: format!("V{i}"), index: (i as u8).wrapping_mul(3), fields: if i % 2 == 0 { vec![] } else { vec![Fld { name: None, id: *r.pick(&ids) }] } }).collect()),
        });
    }
    // shuffle ids
    let n = defs.len();
    let mut perm: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() {
        perm.swap(i, r.below(i + 1));
    }
    let mut out = vec![Def::Prim("u8"); n];
    for (i, mut d) in defs.into_iter().enumerate() {
        map_ids(&mut d, &|x| perm[x as usize]);
        out[perm[i] as usize] = d;
    }
    // rarely a dangling id
    if r.pct(4) {
        out.push(Def::Seq(n as u32 + 50));
    }
    Reg::new(out)
}
/// types which contain themselves, each about a leaf
pub fn add_recursive(r: &mut Rng, reg: &mut Reg) {
    let leaf = reg.defs.len() as u32;
    reg.defs.push(Def::Prim(*r.pick(&["u8", "bool", "u32", "str"])));
    for _ in 0..2 {
        let me = reg.defs.len() as u32;
        let f = |n: Option<&str>, id: u32| Fld { name: n.map(|s| s.into()), id };
        let var = |name: &str, index: u8, fields: Vec<Fld>| Var { name: name.into(), index, fields };
        let (i, j) = (r.byte() % 100, 100 + r.byte() % 100);
        match r.below(6) {
            0 => reg.defs.push(Def::Var(vec![var("Nil", i, vec![]), var("Cons", j, vec![f(None, leaf), f(None, me)])])),
            1 => reg.defs.push(Def::Var(vec![
                var("Leaf", i, vec![f(None, leaf)]),
                var("Node", j, vec![f(Some("head"), leaf), f(Some("tail"), me)]),
            ])),
            2 => reg.defs.push(Def::Var(vec![var("Zero", i, vec![]), var("Succ", j, vec![f(None, me)])])),
            3 => {
                reg.defs.push(Def::Var(vec![var("None", 0, vec![]), var("Some", 1, vec![f(None, me + 1)])]));
                reg.defs.push(Def::Comp(vec![f(Some("val"), leaf), f(Some("next"), me)]));
            }
            4 => {
                reg.defs.push(Def::Seq(me + 1));
                reg.defs.push(Def::Comp(vec![f(Some("val"), leaf), f(Some("kids"), me)]));
            }
            _ => {
                reg.defs.push(Def::Seq(me + 1));
                reg.defs.push(Def::Tup(vec![me, leaf]));
            }
        }
    }
}
fn map_ids(d: &mut Def, f: &dyn Fn(u32) -> u32) {
    match d {
        Def::Compact(i) | Def::Seq(i) | Def::Arr(_, i) => *i = f(*i),
        Def::Tup(is) => is.iter_mut().for_each(|i| *i = f(*i)),
        Def::Comp(fs) => fs.iter_mut().for_each(|x| x.id = f(x.id)),
        Def::Var(vs) => vs.iter_mut().for_each(|v| v.fields.iter_mut().for_each(|x| x.id = f(x.id))),
        _ => {}
    }
}
fn zero_sized(defs: &[Def], id: u32) -> bool {
    match defs.get(id as usize) {
        Some(Def::Tup(is)) => is.iter().all(|i| zero_sized(defs, *i)),
        Some(Def::Comp(fs)) => fs.iter().all(|f| zero_sized(defs, f.id)),
        Some(Def::Arr(n, i)) => *n == 0 || zero_sized(defs, *i),
        Some(Def::Compact(i)) => zero_sized(defs, *i),
        _ => false,
    }
}
fn compactable(defs: &[Def], id: u32) -> bool {
    match &defs[id as usize] {
        Def::Prim(p) => matches!(*p, "u8" | "u16" | "u32" | "u64" | "u128"),
        Def::Tup(is) => is.len() == 1 && compactable(defs, is[0]),
        Def::Comp(fs) => fs.len() == 1 && compactable(defs, fs[0].id),
        _ => false,
    }
}
pub fn gen_variants(r: &mut Rng, ids: &[u32], o: &TypeOpts) -> Vec<Var> {
    let odd = some_names(r, 4);
    let mut names: Vec<&str> = match r.below(10) {
        0..=4 => VNAMES.to_vec(),
        5..=7 => VALIKE.to_vec(),
        _ => odd.iter().map(|s| &**s).collect(),
    };
    let mut idx: Vec<u8> = vec![0, 1, 2, 3, 7, 64, 127, 128, 200, 254, 255];
    (0..r.range(1, 4))
        .map(|_| {
            let n = nfields(r);
            Var {
                name: names.remove(r.below(names.len())).to_string(),
                index: idx.remove(r.below(idx.len())),
                fields: gen_fields(r, n, ids, o),
            }
        })
        .collect()
}

pub fn width(p: &str) -> u32 {
    p[1..].parse().unwrap()
}
/// an unsigned integer below 2^bits, boundaries preferred
pub fn gen_uint(r: &mut Rng, bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let x = match r.below(4) {
        0 => r.below(4) as u128,
        1 => {
            // around a power of two
            let k = *r.pick(&[1u32, 2, 6, 7, 8, 14, 15, 16, 24, 30, 31, 32, 40, 62, 63, 64, 96, 126, 127]);
            let p = 1u128 << (k % bits.max(1));
            match r.below(3) {
                0 => p - 1,
                1 => p,
                _ => p + 1,
            }
        }
        2 => max - r.below(3) as u128,
        _ => {
            let x = ((r.next() as u128) << 64) | r.next() as u128;
            x >> r.below(128)
        }
    };
    x & max
}
/// 32 bytes of a 256-bit number, small, huge, negative or anything
pub fn gen_256(r: &mut Rng) -> [u8; 32] {
    let mut w = [0u8; 32];
    match r.below(6) {
        0 => {}
        1 => w[..16].copy_from_slice(&gen_uint(r, 128).to_le_bytes()),
        2 => {
            // sign-extended
            let x = gen_int(r, 128);
            w = [if x < 0 { 255 } else { 0 }; 32];
            w[..16].copy_from_slice(&x.to_le_bytes());
        }
        3 => w[r.below(32)] = 1 << r.below(8),
        4 => w = [r.byte(); 32],
        _ => w.iter_mut().for_each(|b| *b = r.byte()),
    }
    w
}
pub fn gen_int(r: &mut Rng, bits: u32) -> i128 {
    let x = gen_uint(r, bits);
    // sign-extend
    ((x << (128 - bits)) as i128) >> (128 - bits)
}
pub fn gen_string(r: &mut Rng, max: usize) -> String {
    let n = if r.pct(3) { if r.pct(20) { *r.pick(&[127, 128, 255, 256, 257, 300, 1025]) } else { r.range(60, 70) } } else { r.below(max + 1) };
    (0..n).map(|_| *r.pick(&CHARS)).collect()
}
pub fn gen_bits(r: &mut Rng) -> BitSequence {
    let n = if r.0 % 37 == 0 { *r.pick(&[127, 128, 129, 255, 256, 257, 300, 513]) } else { *r.pick(&[0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70]) };
    let mut b = BitSequence::new();
    let style = r.below(4);
    for i in 0..n {
        b.push(match style {
            0 => true,
            1 => false,
            2 => i == n - 1,
            _ => r.pct(50),
        });
    }
    b
}

pub fn u(x: u128) -> V {
    Value { value: ValueDef::Primitive(Primitive::U128(x)), context: 0 }
}
pub fn node(d: ValueDef<u32>) -> V {
    Value { value: d, context: 0 }
}
pub fn unnamed(vs: Vec<V>) -> V {
    node(ValueDef::Composite(Composite::Unnamed(vs)))
}
pub fn named(fs: Vec<(String, V)>) -> V {
    node(ValueDef::Composite(Composite::Named(fs)))
}
fn comp_of(fs: &[Fld], vs: Vec<V>) -> Composite<u32> {
    if !fs.is_empty() && fs.iter().all(|f| f.name.is_some()) {
        Composite::Named(fs.iter().zip(vs).map(|(f, v)| (f.name.clone().unwrap(), v)).collect())
    } else {
        Composite::Unnamed(vs)
    }
}

/// A value with exactly the structure of the type, or None (dangling ids, impossible compacts, too deep).
pub fn gen_exact(r: &mut Rng, reg: &Reg, id: u32, depth: usize) -> Option<V> {
    let deep = depth_now(depth)?;
    Some(match reg.get(id)? {
        Def::Prim(p) => match *p {
            "bool" => node(ValueDef::Primitive(Primitive::Bool(r.pct(50)))),
            "char" => node(ValueDef::Primitive(Primitive::Char(*r.pick(&CHARS)))),
            "str" => node(ValueDef::Primitive(Primitive::String(gen_string(r, 4)))),
            "u256" | "i256" => {
                let w = gen_256(r);
                node(ValueDef::Primitive(if *p == "u256" { Primitive::U256(w) } else { Primitive::I256(w) }))
            }
            p if p.starts_with('u') => u(gen_uint(r, width(p))),
            p => node(ValueDef::Primitive(Primitive::I128(gen_int(r, width(p))))),
        },
        Def::Compact(i) => gen_exact(r, reg, *i, depth + 1)?,
        Def::Seq(i) => {
            let n = long_list(r, reg, *i).unwrap_or_else(|| how_many(r, deep));
            let mut vs = vec![];
            for _ in 0..n {
                vs.push(gen_exact(r, reg, *i, depth + 1)?);
            }
            unnamed(vs)
        }
        Def::Arr(n, i) => {
            let mut vs = vec![];
            for _ in 0..*n {
                vs.push(gen_exact(r, reg, *i, depth + 1)?);
            }
            unnamed(vs)
        }
        Def::Tup(is) => {
            let mut vs = vec![];
            for i in is {
                vs.push(gen_exact(r, reg, *i, depth + 1)?);
            }
            unnamed(vs)
        }
        Def::Comp(fs) => node(ValueDef::Composite(gen_exact_fields(r, reg, fs, depth)?)),
        Def::Var(vs) => {
            let v = which(r, vs, deep);
            node(ValueDef::Variant(Variant {
                name: v.name.clone(),
                values: gen_exact_fields(r, reg, &v.fields, depth)?,
            }))
        }
        Def::Bits(..) => node(ValueDef::BitSequence(gen_bits(r))),
    })
}
pub fn gen_exact_fields(r: &mut Rng, reg: &Reg, fs: &[Fld], depth: usize) -> Option<Composite<u32>> {
    let mut vs = vec![];
    for f in fs {
        vs.push(gen_exact(r, reg, f.id, depth + 1)?);
    }
    Some(comp_of(fs, vs))
}

fn wrap(r: &mut Rng, v: V) -> V {
    match r.below(3) {
        0 => named(vec![(r.pick(&NAMES).to_string(), v)]),
        _ => unnamed(vec![v]),
    }
}
fn map_comp(c: Composite<u32>, f: &mut dyn FnMut(usize, V) -> V) -> Composite<u32> {
    match c {
        Composite::Named(fs) => {
            Composite::Named(fs.into_iter().enumerate().map(|(i, (n, v))| (n, f(i, v))).collect())
        }
        Composite::Unnamed(vs) => Composite::Unnamed(vs.into_iter().enumerate().map(|(i, v)| f(i, v)).collect()),
    }
}
fn only(c: Composite<u32>) -> V {
    c.into_values().next().unwrap()
}

/// Drop wrappers the type has and add wrappers it does not have, here and there.
pub fn lenient(r: &mut Rng, reg: &Reg, id: u32, v: V, pct: usize) -> V {
    let v = match (reg.get(id), v.value) {
        (Some(Def::Tup(is)), ValueDef::Composite(c)) => {
            let one = is.len() == 1;
            let c = map_comp(c, &mut |i, x| match is.get(i) {
                Some(id) => lenient(r, reg, *id, x, pct),
                None => x,
            });
            if one && c.len() == 1 && r.pct(pct) {
                only(c)
            } else {
                node(ValueDef::Composite(c))
            }
        }
        (Some(Def::Comp(fs)), ValueDef::Composite(c)) => {
            let one = fs.len() == 1;
            let c = map_comp(c, &mut |i, x| match fs.get(i) {
                Some(f) => lenient(r, reg, f.id, x, pct),
                None => x,
            });
            if one && c.len() == 1 && r.pct(pct) {
                only(c)
            } else {
                node(ValueDef::Composite(c))
            }
        }
        (Some(Def::Arr(n, i)), ValueDef::Composite(c)) => {
            let c = map_comp(c, &mut |_, x| lenient(r, reg, *i, x, pct));
            if *n == 1 && c.len() == 1 && r.pct(pct) {
                only(c)
            } else {
                node(ValueDef::Composite(c))
            }
        }
        (Some(Def::Seq(i)), ValueDef::Composite(c)) => {
            node(ValueDef::Composite(map_comp(c, &mut |_, x| lenient(r, reg, *i, x, pct))))
        }
        (Some(Def::Compact(i)), value) => lenient(r, reg, *i, node(value), pct),
        (Some(Def::Var(vs)), ValueDef::Variant(x)) => {
            let fs = vs.iter().find(|w| w.name == x.name).map(|w| w.fields.clone()).unwrap_or_default();
            let values = map_comp(x.values, &mut |i, y| match fs.get(i) {
                Some(f) => lenient(r, reg, f.id, y, pct),
                None => y,
            });
            node(ValueDef::Variant(Variant { name: x.name, values }))
        }
        (_, value) => node(value),
    };
    let mut v = v;
    // (all wrappers dropped, none added)
    if pct > 100 {
        return v;
    }
    while r.pct(if is_deep() { pct / 12 } else { pct / 3 }) {
        v = wrap(r, v);
    }
    v
}

/// Leaves of the same number in another kind: chars, signed for unsigned, bools for bits.
pub fn respell(r: &mut Rng, v: V) -> V {
    match v.value {
        ValueDef::Primitive(Primitive::U128(x)) if r.pct(40) => match (x, r.below(2)) {
            (x, 0) if x < 0xD800 => node(ValueDef::Primitive(Primitive::Char(char::from_u32(x as u32).unwrap()))),
            (x, _) if x <= i128::MAX as u128 => node(ValueDef::Primitive(Primitive::I128(x as i128))),
            (x, _) => u(x),
        },
        ValueDef::Primitive(Primitive::I128(x)) if x >= 0 && r.pct(40) => u(x as u128),
        ValueDef::BitSequence(b) if r.pct(60) => {
            let vs = b
                .iter()
                .map(|x| match r.below(3) {
                    0 => node(ValueDef::Primitive(Primitive::Bool(x))),
                    1 => u(x as u128),
                    _ => node(ValueDef::Primitive(Primitive::I128(x as i128))),
                })
                .collect();
            unnamed(vs)
        }
        ValueDef::Composite(c) => node(ValueDef::Composite(map_comp(c, &mut |_, x| respell(r, x)))),
        ValueDef::Variant(x) => node(ValueDef::Variant(Variant {
            name: x.name,
            values: map_comp(x.values, &mut |_, y| respell(r, y)),
        })),
        value => node(value),
    }
}

/// Reorder, add, drop, rename or un-name fields of composites somewhere inside.
pub fn realign(r: &mut Rng, v: V, pct: usize) -> V {
    let comp = |r: &mut Rng, c: Composite<u32>| -> Composite<u32> {
        let c = map_comp(c, &mut |_, x| realign(r, x, pct));
        match c {
            Composite::Named(mut fs) if r.pct(pct) => match r.below(10) {
                7 => {
                    // all names replaced
                    let style = r.below(4);
                    for (i, f) in fs.iter_mut().enumerate() {
                        f.0 = match style {
                            0 => i.to_string(),
                            1 => String::new(),
                            2 => ALIKE[i % ALIKE.len()].to_string(),
                            _ => f.0.to_uppercase(),
                        }
                    }
                    Composite::Named(fs)
                }
                8 if !fs.is_empty() => {
                    // one name replaced by another much like it
                    let k = r.below(fs.len());
                    let n = fs[k].0.clone();
                    fs[k].0 = match r.below(7) {
                        0 => k.to_string(),
                        1 => format!("{n}_"),
                        2 => format!("_{n}"),
                        3 => format!("r#{n}"),
                        4 => n.chars().take(n.chars().count().max(1) - 1).collect(),
                        5 if n.to_uppercase() != n => n.to_uppercase(),
                        _ => n.to_lowercase(),
                    };
                    Composite::Named(fs)
                }
                9 if !fs.is_empty() => {
                    // the same name twice
                    let k = r.below(fs.len());
                    let f = (fs[k].0.clone(), gen_leaf(r));
                    let at = r.below(fs.len() + 1);
                    fs.insert(at, f);
                    Composite::Named(fs)
                }
                0 | 1 => {
                    for i in (1..fs.len()).rev() {
                        let j = r.below(i + 1);
                        fs.swap(i, j);
                    }
                    Composite::Named(fs)
                }
                2 => {
                    let at = r.below(fs.len() + 1);
                    fs.insert(at, (r.pick(&["surplus", "z", "A"]).to_string(), gen_leaf(r)));
                    Composite::Named(fs)
                }
                3 if !fs.is_empty() => {
                    fs.remove(r.below(fs.len()));
                    Composite::Named(fs)
                }
                4 if !fs.is_empty() => {
                    let k = r.below(fs.len());
                    fs[k].0 = "renamed".into();
                    Composite::Named(fs)
                }
                _ => Composite::Unnamed(fs.into_iter().map(|(_, v)| v).collect()),
            },
            Composite::Unnamed(mut vs) if r.pct(pct / 2) => match r.below(4) {
                0 => {
                    let at = r.below(vs.len() + 1);
                    vs.insert(at, gen_leaf(r));
                    Composite::Unnamed(vs)
                }
                1 if !vs.is_empty() => {
                    vs.remove(r.below(vs.len()));
                    Composite::Unnamed(vs)
                }
                2 => {
                    let style = r.below(3);
                    let name = |i: usize| match style {
                        0 => NAMES[i % NAMES.len()].to_string(),
                        1 => i.to_string(),
                        _ => ALIKE[i % ALIKE.len()].to_string(),
                    };
                    Composite::Named(vs.into_iter().enumerate().map(|(i, v)| (name(i), v)).collect())
                }
                _ => {
                    vs.reverse();
                    Composite::Unnamed(vs)
                }
            },
            c => c,
        }
    };
    match v.value {
        ValueDef::Composite(c) => node(ValueDef::Composite(comp(r, c))),
        ValueDef::Variant(x) => {
            let name = if r.pct(pct / 4) { r.pick(&VNAMES).to_string() } else { x.name };
            node(ValueDef::Variant(Variant { name, values: comp(r, x.values) }))
        }
        value => node(value),
    }
}

pub fn gen_leaf(r: &mut Rng) -> V {
    match r.below(30) {
        28 => return node(ValueDef::Primitive(Primitive::U256(gen_256(r)))),
        29 => return node(ValueDef::Primitive(Primitive::I256(gen_256(r)))),
        _ => {}
    }
    match r.below(7) {
        0 => node(ValueDef::Primitive(Primitive::Bool(r.pct(50)))),
        1 => node(ValueDef::Primitive(Primitive::Char(*r.pick(&CHARS)))),
        2 => node(ValueDef::Primitive(Primitive::String(gen_string(r, 3)))),
        3 => node(ValueDef::Primitive(Primitive::I128(gen_int(r, 128)))),
        4 => node(ValueDef::BitSequence(gen_bits(r))),
        _ => u(gen_uint(r, 128)),
    }
}
/// Any value.
pub fn gen_value(r: &mut Rng, depth: usize) -> V {
    if depth == 0 || r.pct(35) {
        return gen_leaf(r);
    }
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
    let c = if r.pct(50) {
        Composite::Unnamed((0..n).map(|_| gen_value(r, depth - 1)).collect())
    } else {
        Composite::Named((0..n).map(|_| (r.pick(&NAMES).to_string(), gen_value(r, depth - 1))).collect())
    };
    if r.pct(30) {
        node(ValueDef::Variant(Variant { name: r.pick(&VNAMES).to_string(), values: c }))
    } else {
        node(ValueDef::Composite(c))
    }
}
/// Change one thing somewhere so that the value may no longer fit.
pub fn spoil(r: &mut Rng, v: V) -> V {
    let here = r.pct(25);
    match v.value {
        ValueDef::Composite(c) if !here && !c.is_empty() => {
            let k = r.below(c.len());
            node(ValueDef::Composite(map_comp(c, &mut |i, x| if i == k { spoil(r, x) } else { x })))
        }
        ValueDef::Variant(x) if !here && !x.values.is_empty() => {
            let k = r.below(x.values.len());
            let values = map_comp(x.values, &mut |i, y| if i == k { spoil(r, y) } else { y });
            node(ValueDef::Variant(Variant { name: x.name, values }))
        }
        ValueDef::Composite(Composite::Unnamed(mut vs)) => {
            match if r.pct(3) { 9 } else { r.below(4) } {
                9 => {
                    // the number of them off by what a byte wraps around at
                    let x = vs.first().cloned().unwrap_or(u(1));
                    let n = vs.len();
                    if to_json(&x).to_string().len() < 60 {
                        vs.extend((0..256).map(|_| x.clone()));
                    } else if n > 0 {
                        vs.extend((0..16).map(|_| x.clone()));
                    }
                }
                0 => vs.push(gen_leaf(r)),
                1 => {
                    vs.pop();
                }
                2 => {
                    if let Some(x) = vs.first().cloned() {
                        vs.push(x)
                    }
                }
                _ => return gen_leaf(r),
            }
            unnamed(vs)
        }
        ValueDef::Composite(Composite::Named(mut fs)) => {
            match r.below(3) {
                0 => fs.push((r.pick(&NAMES).to_string(), gen_leaf(r))),
                1 => {
                    fs.pop();
                }
                _ => return unnamed(fs.into_iter().map(|f| f.1).collect()),
            }
            named(fs)
        }
        ValueDef::Variant(x) => match r.below(3) {
            0 => node(ValueDef::Variant(Variant { name: r.pick(&VNAMES).to_string(), values: x.values })),
            1 => node(ValueDef::Composite(x.values)),
            _ => gen_leaf(r),
        },
        ValueDef::Primitive(Primitive::U128(x)) => match r.below(5) {
            0 => u(x.wrapping_add(256)),
            1 => u(x.wrapping_add(1 << 32)),
            2 => node(ValueDef::Primitive(Primitive::I128((x as i128).wrapping_neg()))),
            3 => u(x.wrapping_add(1u128 << *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 96, 127]))),
            _ => gen_leaf(r),
        },
        ValueDef::Primitive(Primitive::I128(x)) => match r.below(4) {
            0 => node(ValueDef::Primitive(Primitive::I128(x.wrapping_add(1i128 << *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 96, 127]))))),
            1 => node(ValueDef::Primitive(Primitive::I128(x.wrapping_neg()))),
            2 => u(x as u128),
            _ => gen_leaf(r),
        },
        ValueDef::Primitive(Primitive::Bool(b)) if r.pct(70) => {
            // not quite 0 or 1
            let k = *r.pick(&[1, 7, 8, 16, 32, 64, 96, 126]);
            let x = b as u128 + (1 << k);
            if r.pct(50) {
                u(x)
            } else {
                node(ValueDef::Primitive(Primitive::I128(if r.pct(80) { x as i128 } else { -(x as i128) })))
            }
        }
        _ => {
            if r.pct(50) {
                gen_leaf(r)
            } else {
                gen_value(r, 2)
            }
        }
    }
}
/// Damage bytes: truncate, flip, insert, append.
pub fn mutate(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    for _ in 0..r.range(1, 2) {
        match r.below(6) {
            0 => {
                let n = r.below(b.len() + 1);
                b.truncate(n)
            }
            1 | 2 if !b.is_empty() => {
                let k = r.below(b.len());
                b[k] = *r.pick(&[0, 1, 2, 3, 4, 8, 63, 64, 127, 128, 192, 237, 244, 251, 252, 253, 254, 255]);
            }
            3 if !b.is_empty() => {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8);
            }
            4 => {
                let k = r.below(b.len() + 1);
                b.insert(k, r.byte());
            }
            _ => {
                for _ in 0..r.range(1, 6) {
                    b.push(r.byte())
                }
            }
        }
    }
    b
}
pub fn gen_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    (0..n)
        .map(|_| {
            if r.pct(60) {
                *r.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 64, 128, 253, 254, 255])
            } else {
                r.byte()
            }
        })
        .collect()
}
