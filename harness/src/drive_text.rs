//! Drives printing and parsing.
use crate::drive::{ok, Rec};
use crate::gen::*;
use crate::rng::Rng;
use crate::types::text;
use crate::vals::{to_json, V};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use serde_json::{json, Value as J};

/// characters with every combination of classes
pub const WIDE: [char; 34] = [
    '\u{85}', '\u{a0}', '\u{aa}', '\u{b2}', '\u{b5}', '\u{bc}', '\u{c0}', '\u{df}', '\u{e9}', '\u{130}', '\u{1c5}', '\u{301}',
    '\u{345}', '\u{5d0}', '\u{663}', '\u{967}', '\u{1680}', '\u{180e}', '\u{2003}', '\u{200b}', '\u{2028}', '\u{202f}', '\u{205f}',
    '\u{2167}', '\u{24b6}', '\u{3000}', '\u{4e2d}', '\u{65e5}', '\u{672c}', '\u{feff}', '\u{fffd}', '\u{1d54f}', '\u{1f600}',
    '\u{10ffff}',
];
const TNAMES: [&str; 40] = [
    "a", "b", "foo", "Foo", "r1", "v", "v1", "V", "true", "false", "trueish", "falsey", "truefalse", "tru", "_x", "a_b", "a_", "A",
    "", " ", "a b", "x\"y", "\\", "\n", "a:b", "x(", "0", "1a", "-1", "0x1F", "Some", "None", "é", "日本", "a日", "aé1", "\u{301}", "v\"",
    "'", "truE",
];
pub fn gen_tname(r: &mut Rng) -> String {
    match r.below(9) {
        0 => {
            let n = r.below(4);
            (0..n).map(|_| tchar(r)).collect()
        }
        8 => gen_name(r),
        7 if r.pct(50) => {
            // one character in the middle of what is otherwise an identifier
            let c = if r.pct(60) { *r.pick(&NEAR) } else { any_char(r) };
            format!("{}{c}{}", r.pick(&["", "a", "Ab", "é"]), r.pick(&["", "b", "1", "_"]))
        }
        1 => {
            let n = r.range(1, 4);
            (0..n).map(|_| *r.pick(&['a', 'Z', '_', '9', 'é', '\u{663}', '\u{2167}'])).collect()
        }
        _ => r.pick(&TNAMES).to_string(),
    }
}
/// characters that some notion of identifier, digit or space takes in and another does not
const NEAR: [char; 40] = [
    '\u{b7}', '\u{387}', '\u{1369}', '\u{19da}', '\u{2118}', '\u{212e}', '\u{309b}', '\u{37a}', '\u{e33}', '\u{fe4d}', '\u{203f}', '\u{ff3f}',
    '\u{200c}', '\u{200d}', '\u{2160}', '\u{2460}', '\u{1d7ce}', '\u{3007}', '\u{3021}', '\u{a620}', '\u{f0c}', '\u{903}', '\u{94d}', '\u{5b0}',
    '\u{661}', '\u{ff11}', '\u{ff21}', '\u{1f150}', '\u{1c}', '\u{1f}', '\u{200e}', '\u{2060}', '\u{200a}', '\u{2029}', '\u{ad}', '\u{e0001}',
    '\u{7f}', '\u{e000}', '\u{20dd}', '\u{ffff}',
];
fn any_char(r: &mut Rng) -> char {
    let top = *r.pick(&[0x100, 0x700, 0x3000, 0x3000, 0x10000, 0x20000, 0x110000]);
    loop {
        if let Some(c) = char::from_u32(r.below(top) as u32) {
            return c;
        }
    }
}
pub fn tchar(r: &mut Rng) -> char {
    match r.below(6) {
        0 => *r.pick(&WIDE),
        1 => *r.pick(&CHARS),
        2 if r.pct(50) => *r.pick(&NEAR),
        2 => any_char(r),
        _ => char::from(r.below(128) as u8),
    }
}
pub fn tstring(r: &mut Rng) -> String {
    let n = if r.pct(2) { *r.pick(&[16, 31, 32, 33, 64, 70, 256, 300]) } else { *r.pick(&[0, 1, 2, 3, 5, 8]) };
    (0..n).map(|_| tchar(r)).collect()
}
pub fn tint(r: &mut Rng) -> u128 {
    let e = *r.pick(&[0u128, 1, 2, 9, 10, 15, 16, 99, 255, 256, 1 << 64, (1 << 127) - 1, 1 << 127, u128::MAX - 1, u128::MAX]);
    if r.pct(50) { e } else { gen_uint(r, 128) }
}
fn ctx(r: &mut Rng) -> u32 {
    *r.pick(&[0, 0, 1, 2, 3, 7, 10, 123])
}
fn leaf(r: &mut Rng, big: bool) -> ValueDef<u32> {
    match r.below(if big { 18 } else { 16 }) {
        0 | 1 => ValueDef::Primitive(Primitive::Bool(r.pct(50))),
        2..=4 => ValueDef::Primitive(Primitive::Char(tchar(r))),
        5..=7 => ValueDef::Primitive(Primitive::String(tstring(r))),
        8 | 9 => ValueDef::Primitive(Primitive::I128(match r.below(4) {
            0 => i128::MIN,
            1 => i128::MIN + 1,
            2 => 0,
            _ => gen_int(r, 128),
        })),
        10 | 11 => {
            let n = *r.pick(&[0, 1, 2, 5, 8, 9, 33, 65]);
            ValueDef::BitSequence((0..n).map(|_| r.pct(50)).collect())
        }
        16 => ValueDef::Primitive(Primitive::U256(gen_256(r))),
        17 => ValueDef::Primitive(Primitive::I256(gen_256(r))),
        _ => ValueDef::Primitive(Primitive::U128(tint(r))),
    }
}
pub fn tvalue(r: &mut Rng, depth: usize, big: bool) -> V {
    let context = ctx(r);
    if depth == 0 || r.pct(30) {
        return Value { value: leaf(r, big), context };
    }
    if r.pct(1) {
        // a long way down
        let mut v = Value { value: leaf(r, big), context };
        let style = r.below(4);
        for i in 0..*r.pick(&[8, 10, 17, 24, 24, 33, 50, 65, 90, 100]) {
            if crate::vals::nesting(&v) > 215 {
                break;
            }
            let c = match (style, i % 3) {
                (0, _) | (3, 0) => Composite::Unnamed(vec![v]),
                _ => Composite::Named(vec![(gen_tname(r), v)]),
            };
            let value = if style == 2 || i % 3 == 2 { ValueDef::Variant(Variant { name: gen_tname(r), values: c }) } else { ValueDef::Composite(c) };
            v = Value { value, context: ctx(r) };
        }
        return v;
    }
    let long = r.pct(2);
    let n = if long { *r.pick(&[9, 16, 17, 31, 32, 33, 64, 65]) } else { *r.pick(&[0, 0, 1, 1, 2, 2, 3]) };
    let depth = if long { 1 } else { depth };
    let c = match r.below(5) {
        0 | 1 => Composite::Unnamed((0..n).map(|_| tvalue(r, depth - 1, big)).collect()),
        2 => {
            let n = if long { n } else { *r.pick(&[0, 1, 2, 3, 8]) };
            let far = r.pct(20);
            Composite::Unnamed((0..n).map(|i| {
                let x = if far && i + 1 == n { *r.pick(&[256, 65536, 1 << 64, 511]) } else { r.byte() as u128 };
                Value { value: ValueDef::Primitive(Primitive::U128(x)), context: ctx(r) }
            }).collect())
        }
        _ => Composite::Named((0..n).map(|_| (gen_tname(r), tvalue(r, depth - 1, big))).collect()),
    };
    let value = if r.pct(35) { ValueDef::Variant(Variant { name: gen_tname(r), values: c }) } else { ValueDef::Composite(c) };
    Value { value, context }
}
fn plain(mode: &str) -> J {
    json!({"mode": mode, "by": text("  "), "lead": [], "use": false, "bad": -1, "fmts": []})
}
fn print_ev(how: &str, what: &str, o: J, budget: i64, v: &V) -> J {
    json!({"op": "print", "how": how, "what": what, "o": o, "budget": budget, "v": to_json(v)})
}
/// a plain print in some style, by some way
fn plain_print(r: &mut Rng, v: &V, white: bool) -> J {
    match r.below(8) {
        0 => print_ev("display", "value", plain("normal"), -1, v),
        1 => print_ev("alt", "value", plain("pretty"), -1, v),
        2 => print_ev("writer", "value", plain("normal"), -1, v),
        3 if !has_256(v) => print_ev("string", "value", plain("normal"), -1, v),
        4 => print_ev("builder", "value", plain("compact"), -1, v),
        5 => {
            let what = match &v.value {
                ValueDef::Primitive(_) => "prim",
                ValueDef::Composite(_) => "comp",
                ValueDef::Variant(_) => "variant",
                _ => "def",
            };
            let what = if r.pct(30) { "def" } else { what };
            let (how, mode) = *r.pick(&[("display", "normal"), ("alt", "pretty")]);
            print_ev(how, what, plain(mode), -1, v)
        }
        _ => {
            let mode = *r.pick(&["pretty", "pretty", "normal", "compact"]);
            let mut o = plain(mode);
            let units = ["", " ", "\t", "    ", "\u{3000}", "\n", "  ", "         ", "                 ", "**", "é", "0123456789abcdef"];
            let n = if white { 9 } else { 12 };
            o["by"] = text(units[r.below(n)]);
            o["lead"] = text(units[r.below(n)]);
            print_ev("builder", "value", o, -1, v)
        }
    }
}
fn has_256(v: &V) -> bool {
    match &v.value {
        ValueDef::Primitive(Primitive::U256(_) | Primitive::I256(_)) => true,
        ValueDef::Composite(c) => c.values().any(has_256),
        ValueDef::Variant(x) => x.values.values().any(has_256),
        _ => false,
    }
}

pub fn c15(r: &mut Rng, x: &mut Rec) {
    let d = r.below(4);
    let v = tvalue(r, d, false);
    let e = plain_print(r, &v, true);
    if ok(&x.run(e)) {
        x.run(json!({"op": "parse", "s": [], "last": true, "ps": [], "how": *r.pick(&["fn", "again"])}));
    }
}
pub fn c16(r: &mut Rng, x: &mut Rec) {
    let d = r.below(4);
    let v = tvalue(r, d, false);
    let e = plain_print(r, &v, false);
    x.run(e);
}
pub fn c17(r: &mut Rng, x: &mut Rec) {
    let d = r.below(4);
    let big = r.pct(40);
    let v = tvalue(r, d, big);
    let mut o = plain(*r.pick(&["normal", "compact", "pretty"]));
    if r.pct(if o["mode"] == "pretty" { 60 } else { 20 }) {
        o["by"] = text(r.pick(&["", "\t", "é"]));
        o["lead"] = text(r.pick(&["", "  ", "%", "|>", "            ", "a lead of some length "]));
    }
    if r.pct(60) {
        o["use"] = json!(true);
        if r.pct(30) {
            o["bad"] = json!(ctx(r));
        }
    }
    let n = *r.pick(&[0, 1, 1, 2, 3, 1, 2, 6, 9]);
    o["fmts"] = (0..n)
        .map(|_| match r.below(5) {
            0 => json!({"kind": "hex"}),
            _ => {
                let on = *r.pick(&["any", "ctx", "bool", "str", "u128", "i128", "u256", "i256", "named", "unnamed", "var", "bits", "ctx"]);
                let on = if on == "any" && r.pct(70) { "u256" } else { on };
                let res = if r.pct(15) { "err" } else { "ok" };
                json!({"kind": "syn", "on": on, "x": ctx(r), "out": text(r.pick(&["", "X", "<é>", "()"])), "res": res})
            }
        })
        .collect();
    if r.pct(12) {
        // the writer gives up at every place in turn
        let (first, n) = (*r.pick(&[0, 0, 0, 7, 20]), r.range(12, 30) as i64);
        for budget in first..first + n {
            x.run(print_ev("builder", "value", o.clone(), budget, &v));
        }
        return;
    }
    let budget = if r.pct(35) { *r.pick(&[0, 1, 2, 3, 5, 8, 13, 21, 34]) } else { -1 };
    let e = print_ev("builder", "value", o, budget, &v);
    x.run(e);
}
const TOKENS: [&str; 84] = [
    "(", ")", "{", "}", "<", ">", ",", ":", " ", "\n", "\t", "true", "false", "'", "\"", "\\", "\\n", "\\x", "0", "1", "12", "1_000",
    "-", "+", "_", "-5", "+7", "-0", "v", "v\"", "v\"x\"", "Foo", "foo", "a", "b1", "é", "日", "\u{301}", "\u{a0}", "\u{3000}", "\u{200b}",
    "\u{663}", "\u{2167}", "\u{1f600}", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
    "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "00000000000000000000000000000000000000000001",
    "0x", "0x1f", "<01>", "<>", "<012>", "()", "{}", "(1)", "{a:1}", "A()", "A{}", "A (1,2)", "'a'", "'\\n'", "'ab'", "''", "\"s\"", "\"\\0\"",
    "i\"x\"", "i\"", "V\"x\"(1)", "i\"x\"(1)", "i\"x\"{}", "r\"x\"(1)", "b\"x\"()", "v\"x\"(1)",
    "a:", "\"k\":", ", ", ": ", "( ", " )", "1,", "true,", "true(",
];
fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 7);
    (0..n).map(|_| *r.pick(&TOKENS)).collect()
}
fn ws(r: &mut Rng) -> String {
    if r.pct(60) {
        return String::new();
    }
    let n = r.range(1, 2);
    (0..n).map(|_| *r.pick(&[' ', ' ', '\n', '\t', '\u{a0}', '\u{3000}', '\r', '\u{b}', '\u{85}', '\u{2028}', '\u{1680}', '\u{2003}'])).collect()
}
fn quote(s: &str, q: char) -> String {
    let mut o = String::from(q);
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\\' => o.push_str("\\\\"),
            '\0' => o.push_str("\\0"),
            '"' | '\'' => {
                o.push('\\');
                o.push(c)
            }
            c => o.push(c),
        }
    }
    o.push(q);
    o
}
fn identish(s: &str) -> bool {
    let mut cs = s.chars();
    cs.next().is_some_and(|c| c.is_alphabetic()) && cs.all(|c| c.is_alphanumeric() || c == '_')
}
/// a text of the value, spelled in some way that the syntax allows (mostly)
pub fn wild(r: &mut Rng, v: &V, hex: bool) -> String {
    match &v.value {
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => b.to_string(),
            Primitive::Char(c) => if r.pct(10) { format!("'{c}'") } else { quote(&c.to_string(), '\'') },
            Primitive::String(s) => quote(s, '"'),
            Primitive::U128(u) => number(r, &u.to_string()),
            Primitive::I128(i) => number(r, &i.to_string()),
            Primitive::U256(_) | Primitive::I256(_) => "0".into(),
        },
        ValueDef::BitSequence(b) => {
            let s: String = b.iter().map(|b| if b { '1' } else { '0' }).collect();
            format!("<{s}>")
        }
        ValueDef::Variant(x) => {
            let n = if identish(&x.name) && r.pct(80) { x.name.clone() } else { format!("v{}", quote(&x.name, '"')) };
            format!("{n}{}{}", ws(r), wild_comp(r, &x.values, hex))
        }
        ValueDef::Composite(c) => wild_comp(r, c, hex),
    }
}
fn number(r: &mut Rng, s: &str) -> String {
    let (sign, digits) = match s.strip_prefix('-') {
        Some(d) => ("-", d),
        None => (if r.pct(20) { "+" } else { "" }, s),
    };
    let mut o = String::from(sign);
    if r.pct(10) {
        o.push_str("00")
    }
    for (i, c) in digits.chars().enumerate() {
        o.push(c);
        if r.pct(5) || (i == 0 && r.pct(5)) {
            o.push('_')
        }
    }
    o
}
fn wild_comp(r: &mut Rng, c: &Composite<u32>, hex: bool) -> String {
    if hex && !c.is_empty() && r.pct(50) {
        let b: Option<Vec<u8>> = c.values().map(|v| v.as_u128().and_then(|x| u8::try_from(x).ok())).collect();
        if let (Some(b), Composite::Unnamed(_)) = (b, c) {
            return hex_text(r, &b);
        }
    }
    let items: Vec<String> = match c {
        Composite::Unnamed(vs) => vs.iter().map(|v| wild(r, v, hex)).collect(),
        Composite::Named(fs) => fs
            .iter()
            .map(|(n, v)| {
                let n = if identish(n) && r.pct(80) { n.clone() } else { quote(n, '"') };
                format!("{n}{}:{}{}", ws(r), ws(r), wild(r, v, hex))
            })
            .collect(),
    };
    let named = matches!(c, Composite::Named(_));
    let mut o = String::from(if named { "{" } else { "(" });
    for (i, s) in items.iter().enumerate() {
        if i > 0 {
            o += &ws(r);
            o.push(',');
        }
        o += &ws(r);
        o += s;
    }
    if !items.is_empty() && r.pct(4) {
        o.push(',')
    }
    o += &ws(r);
    o.push(if named { '}' } else { ')' });
    o
}
fn hex_text(r: &mut Rng, b: &[u8]) -> String {
    let style = r.below(3);
    let mut o = String::from("0x");
    for x in b {
        o += &match style {
            0 => format!("{x:02x}"),
            1 => format!("{x:02X}"),
            _ => format!("{:x}{:X}", x >> 4, x & 15),
        };
    }
    if r.pct(20) {
        // spoil it
        let k = r.range(1, o.len());
        match r.below(3) {
            0 => o.insert(k, *r.pick(&['g', 'G', 'z', '0', 'A', '@', '`', '/'])),
            1 => {
                o.remove(k - 1);
            }
            _ => o.insert(k, *r.pick(&['x', 'é', '_', ' ', ':', '\u{663}'])),
        }
    }
    o
}
fn mutate_text(r: &mut Rng, s: String) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let n = cs.len();
        match r.below(7) {
            0 if n > 0 => {
                cs.remove(r.below(n));
            }
            1 => {
                let t: Vec<char> = r.pick(&TOKENS).chars().collect();
                let k = r.below(n + 1);
                cs.splice(k..k, t);
            }
            2 if n > 0 => cs[r.below(n)] = *r.pick(&['(', ')', '{', '}', ',', ':', ' ', '"', '\'', '\\', '0', '-', 'x', '<', '>', '_', 'é', '\u{a0}']),
            3 if n > 0 => {
                let k = r.below(n);
                cs.truncate(k);
            }
            4 if n > 1 => {
                let (a, b) = (r.below(n), r.below(n));
                cs.swap(a, b);
            }
            5 if n > 0 => {
                let a = r.below(n);
                let b = r.range(a, n - 1).min(a + 6);
                let t: Vec<char> = cs[a..=b].to_vec();
                let k = r.below(n + 1);
                cs.splice(k..k, t);
            }
            _ => cs.extend(r.pick(&TOKENS).chars()),
        }
    }
    cs.into_iter().collect()
}
fn any_text(r: &mut Rng, hex: bool) -> String {
    let d = r.below(4);
    match r.below(10) {
        0 => soup(r),
        1 if r.pct(75) => soup(r),
        1 => {
            // one bracket in another, for long, all, some or none of them closed
            let n = *r.pick(&[16, 20, 32, 33, 48, 50, 64, 65, 70]);
            let (open, close) = *r.pick(&[("(", ")"), ("(", ")"), ("{a:", "}"), ("a(", ")"), ("b{\"c\":", "}"), ("(1,", ")"), ("( ", " )"), ("(", ",)")]);
            let n = if open.contains('a') || open.contains('b') { n.min(50) } else { n };
            let k = if r.pct(60) { n } else { r.below(n + 2) };
            let end = *r.pick(&["", "", "1", "a()", "<>", "true", "\"", "?", "'x'"]);
            open.repeat(n) + end + &close.repeat(k)
        }
        2 => {
            let n = r.below(9);
            (0..n).map(|_| tchar(r)).collect()
        }
        3 => {
            // an integer near the edges
            let mut s = String::from(*r.pick(&["", "-", "+"]));
            s += *r.pick(&[
                "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "340282366920938463463374607431768211465",
                "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "170141183460469231731687303715884105729",
                "999999999999999999999999999999999999999", "1000000000000000000000000000000000000000", "18446744073709551616", "0", "9",
                "3_4_0282366920938463463374607431768211455", "0340282366920938463463374607431768211455", "3402823669209384634633746074317682114550",
            ]);
            s += *r.pick(&["", "", " ", "a", "_", ",", ")", ".5"]);
            s
        }
        k => {
            let v = tvalue(r, d, false);
            let s = wild(r, &v, hex);
            let s = if k > 6 { mutate_text(r, s) } else { s };
            if r.pct(30) { s + r.pick(&TOKENS) } else { s }
        }
    }
}
fn parse_ev(s: &str, ps: J, how: &str) -> J {
    json!({"op": "parse", "s": text(s), "last": false, "ps": ps, "how": how})
}
pub fn c18(r: &mut Rng, x: &mut Rec) {
    let s = any_text(r, false);
    let how = *r.pick(&["fn", "again"]);
    x.run(parse_ev(&s, json!([]), how));
}
fn gen_parser(r: &mut Rng) -> J {
    match r.below(12) {
        0 | 1 => json!({"kind": "hex"}),
        2 => json!({"kind": "ss58"}),
        _ => {
            let lit = match r.below(6) {
                0 => "",
                1 => *r.pick(&["(", "{", "<", "'", "\"", "-"]),
                _ => *r.pick(&["a", "true", "1", "0", "é", "日本", "0x", "Foo", "v", "t", "$", "%é", "\u{1f600}", "12", "A", "f"]),
            };
            let res = if lit.is_empty() && r.pct(80) { "none" } else { *r.pick(&["ok", "ok", "ok", "err", "none"]) };
            let d = r.below(2);
            let v = strip(tvalue(r, d, false));
            let es = r.below(4);
            json!({"kind": "syn", "lit": text(lit), "eat": r.below(4) * r.below(2), "res": res, "v": to_json(&v),
                "es": es, "eh": r.pct(50), "et": if r.pct(20) { r.below(5) } else { es + r.below(3) }, "drift": r.below(4)})
        }
    }
}
fn strip(mut v: V) -> V {
    v.context = 0;
    match &mut v.value {
        ValueDef::Composite(c) | ValueDef::Variant(Variant { values: c, .. }) => {
            *c = match std::mem::replace(c, Composite::Unnamed(vec![])) {
                Composite::Unnamed(vs) => Composite::Unnamed(vs.into_iter().map(strip).collect()),
                Composite::Named(fs) => Composite::Named(fs.into_iter().map(|(n, v)| (n, strip(v))).collect()),
            }
        }
        _ => {}
    }
    v
}
/// a text with places where custom parsers apply
fn custom_text(r: &mut Rng) -> String {
    let s = any_text(r, true);
    match r.below(4) {
        0 => s,
        _ => {
            let n = r.range(1, 3);
            let mut items = vec![s];
            for _ in 0..n {
                let t = match r.below(4) {
                    0 => r.pick(&["é", "日本", "$", "%é1", "\u{1f600}", "Foo", "0x1F", "true1", "a", "12", "v", "$é日"]).to_string(),
                    1 => format!("({})", r.pick(&["é", "$", "1", "日本 , $", "a", "0x12, é"])),
                    2 => format!("{{ é: {} }}", r.pick(&["é", "$", "1", "日本", "a"])),
                    _ => any_text(r, true),
                };
                let k = r.below(items.len() + 1);
                items.insert(k, t);
            }
            let sep = *r.pick(&[", ", ",", " , "]);
            let b = items.join(sep);
            match r.below(3) {
                0 => format!("({b})"),
                1 => format!("Foo ({b})"),
                _ => format!("{{{}}}", items.iter().enumerate().map(|(i, t)| format!("f{i}: {t}")).collect::<Vec<_>>().join(sep)),
            }
        }
    }
}
pub fn c20(r: &mut Rng, x: &mut Rec) {
    let s = custom_text(r);
    let n = *r.pick(&[1, 1, 2, 2, 3, 4]);
    let ps: Vec<J> = (0..n).map(|_| gen_parser(r)).collect();
    let how = *r.pick(&["fn", "again"]);
    x.run(parse_ev(&s, json!(ps), how));
}
/// a length a shortcut might stop at
fn some_len(r: &mut Rng) -> usize {
    *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 160])
}
pub fn c21(r: &mut Rng, x: &mut Rec) {
    let d = r.range(1, 3);
    let v = if r.pct(8) {
        // many bytes, and perhaps something else among them
        let n = some_len(r);
        let odd = if r.pct(25) { r.below(n + 1) } else { n };
        let vs = (0..n).map(|i| {
            let value = if i == odd { leaf(r, false) } else { ValueDef::Primitive(Primitive::U128(r.byte() as u128)) };
            Value { value, context: ctx(r) }
        });
        Value { value: ValueDef::Composite(Composite::Unnamed(vs.collect())), context: ctx(r) }
    } else {
        tvalue(r, d, false)
    };
    match r.below(5) {
        0 => {
            x.run(json!({"op": "hexf", "v": to_json(&v)}));
        }
        1 => {
            let mut o = plain(*r.pick(&["normal", "compact", "pretty"]));
            o["fmts"] = json!([{"kind": "hex"}]);
            x.run(print_ev("builder", "value", o, -1, &v));
            // the text is not read back with last: it may hold hex, which only the custom parser reads
        }
        2 => {
            let n = if r.pct(15) { some_len(r) } else { r.below(20) };
            let b: Vec<u8> = (0..n).map(|_| r.byte()).collect();
            let s = hex_text(r, &b) + *r.pick(&["", " ", "(", ")", ",", "é", "_", "g", "\u{663}", "\0"]);
            let s = if r.pct(10) { s.replacen("0x", *r.pick(&["0X", "x", "0", "00x", " 0x"]), 1) } else { s };
            x.run(json!({"op": "hexp", "s": text(&s)}));
        }
        3 => {
            let s = any_text(r, true);
            x.run(json!({"op": "hexp", "s": text(&s)}));
        }
        _ => {
            let s = wild(r, &v, true);
            x.run(parse_ev(&s, json!([{"kind": "hex"}]), "fn"));
        }
    }
}
fn ss58_text(r: &mut Rng) -> String {
    use base58::ToBase58;
    use blake2::{Blake2b512, Digest};
    let mut b: Vec<u8> = vec![];
    match r.below(8) {
        0 => b.extend([r.range(64, 127) as u8, r.byte()]),
        1 => b.push(*r.pick(&[0, 42, 63, 64, 127, 128, 255])),
        2 => {}
        _ => b.push(*r.pick(&[0, 1, 2, 42, 63])),
    }
    let n = *r.pick(&[0, 1, 2, 4, 8, 20, 32, 32, 32, 33, 34, 48, 64]);
    let zeros = r.pct(15);
    for _ in 0..n {
        b.push(if zeros { 0 } else { r.byte() })
    }
    let mut h = Blake2b512::new();
    if r.pct(95) {
        h.update(b"SS58PRE");
    }
    h.update(&b);
    let h = h.finalize();
    match r.below(12) {
        0 => b.extend([h[0], h[1] ^ 1]),
        1 => b.extend([h[0] ^ 128, h[1]]),
        2 => b.push(h[0]),
        _ => b.extend(&h[..2]),
    }
    if r.pct(5) {
        let k = r.below(b.len());
        b[k] ^= 1 << r.below(8);
    }
    b.to_base58()
}
/// texts whose checksum is right, and that could be numbers, bools or names
const LIKELY: [&str; 17] = [
    "81837", "399699", "756125152", "85517667263472", "47275761345443582176", "282384167328758952759", "725714198623499927173681314432",
    "43433395587421599142617949441212714149", "929767789864936631113682163384719189188", "6596766286251653528632987378919238456593",
    "27885673482543212467997392784371473645475", "417896729726314321262676924539892998835836726229",
    "2743317541686787255915847541363294157324924965862", "trueQ6RwR", "FooURPb2r", "aTb2Cxen", "vrD7f6sJ",
];
pub fn c22(r: &mut Rng, x: &mut Rec) {
    let a = match r.below(11) {
        10 => r.pick(&LIKELY).to_string(),
        0 => r.pick(&["true", "false", "0", "42", "1234567890", "Foo", "a", "", "1", "11", "111", "truE", "O0Il", "5Grwva", "12ab"]).to_string(),
        1 => {
            let s = ss58_text(r);
            let cs: Vec<char> = s.chars().collect();
            let n = r.below(cs.len() + 1);
            cs[..n].iter().collect()
        }
        2 => {
            let s = ss58_text(r);
            let k = r.below(s.len() + 1);
            format!("{}{}{}", &s[..k], r.pick(&["1", "0", "O", "é", "_", "l", "A"]), &s[k..])
        }
        _ => ss58_text(r),
    };
    let tail = *r.pick(&["", "", " ", ",", ")", "(", " (1)", "{a:1}", "\n{", "é", "_", "\u{3000}(", " x", ", 1)", "-", "\t [", ":"]);
    if r.pct(50) {
        x.run(json!({"op": "ss58p", "s": text(&format!("{a}{tail}"))}));
    } else {
        let b = ss58_text(r);
        let s = match r.below(4) {
            0 => format!("{a}{tail}"),
            1 => format!("({a},{} {b} )", if r.pct(50) { "1," } else { "" }),
            2 => format!("{{ k: {a}, {b}: {b} }}"),
            _ => format!("{a} ({b}){tail}"),
        };
        let ps = match r.below(3) {
            0 => json!([{"kind": "hex"}, {"kind": "ss58"}]),
            _ => json!([{"kind": "ss58"}]),
        };
        x.run(parse_ev(&s, ps, "fn"));
    }
}
