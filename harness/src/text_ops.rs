//! Printing and parsing.
use crate::exec::{outcome, Out};
use crate::types::{text, untext};
use crate::vals::{from_json, to_json, V};
use scale_value::stringify::custom_formatters::format_hex;
use scale_value::stringify::custom_parsers::{parse_hex, parse_ss58};
use scale_value::stringify::{
    from_str, from_str_custom, to_string, to_writer, to_writer_custom, ParseBitSequenceError, ParseCharError, ParseComplexError,
    ParseError, ParseErrorKind, ParseNumberError, ParseStringError, ToWriterBuilder,
};
use scale_value::{Primitive, Value, ValueDef};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::fmt::{self, Write};
use std::rc::Rc;

#[derive(Default)]
struct Sink {
    s: String,
    left: Option<usize>,
    failed: bool,
    after: u32,
}
#[derive(Clone, Default)]
struct W(Rc<RefCell<Sink>>);
impl Write for W {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        let mut k = self.0.borrow_mut();
        if k.failed {
            if !t.is_empty() {
                k.after += 1;
            }
            return Err(fmt::Error);
        }
        for c in t.chars() {
            match &mut k.left {
                Some(0) => {
                    k.failed = true;
                    return Err(fmt::Error);
                }
                Some(n) => *n -= 1,
                None => {}
            }
            k.s.push(c);
        }
        Ok(())
    }
}
type Log = Rc<RefCell<Vec<[u32; 2]>>>;

fn kind_of(v: &V) -> &'static str {
    use scale_value::Composite::*;
    match &v.value {
        ValueDef::Primitive(Primitive::Bool(_)) => "bool",
        ValueDef::Primitive(Primitive::Char(_)) => "char",
        ValueDef::Primitive(Primitive::String(_)) => "str",
        ValueDef::Primitive(Primitive::U128(_)) => "u128",
        ValueDef::Primitive(Primitive::I128(_)) => "i128",
        ValueDef::Primitive(Primitive::U256(_)) => "u256",
        ValueDef::Primitive(Primitive::I256(_)) => "i256",
        ValueDef::Composite(Named(_)) => "named",
        ValueDef::Composite(Unnamed(_)) => "unnamed",
        ValueDef::Variant(_) => "var",
        ValueDef::BitSequence(_) => "bits",
    }
}

fn style(mut b: ToWriterBuilder<u32, W>, o: &J, log: &Log) -> ToWriterBuilder<u32, W> {
    // the order of the options does not matter, except among the formatters
    match o["mode"].as_str().unwrap() {
        "compact" => b = b.compact(),
        "pretty" => b = b.pretty(),
        _ => {}
    }
    b = b.indent_by(untext(&o["by"])).leading_indent(untext(&o["lead"]));
    if o["use"] == true {
        let (l, bad) = (log.clone(), o["bad"].as_i64().unwrap());
        b = b.format_context(move |c, w: &mut W| {
            l.borrow_mut().push([0, *c]);
            if *c as i64 == bad {
                return Err(fmt::Error);
            }
            write!(w, "{c}")
        });
    }
    for (q, f) in o["fmts"].as_array().unwrap().iter().enumerate() {
        let (f, l) = (f.clone(), log.clone());
        b = b.add_custom_formatter(move |v: &V, w: &mut W| {
            l.borrow_mut().push([q as u32 + 1, v.context]);
            if f["kind"] == "hex" {
                return format_hex(v, w);
            }
            let on = f["on"].as_str().unwrap();
            let takes = on == "any" || on == kind_of(v) || (on == "ctx" && f["x"] == v.context);
            if !takes {
                return None;
            }
            if let Err(e) = w.write_str(&untext(&f["out"])) {
                return Some(Err(e));
            }
            Some(if f["res"] == "ok" { Ok(()) } else { Err(fmt::Error) })
        });
    }
    b
}

pub fn print(ev: &J) -> Out {
    let v: V = from_json(&ev["v"]);
    let o = &ev["o"];
    let w = W::default();
    w.0.borrow_mut().left = ev["budget"].as_i64().filter(|b| *b >= 0).map(|b| b as usize);
    let log = Log::default();
    let (how, what) = (ev["how"].as_str().unwrap(), ev["what"].as_str().unwrap());
    let r = match how {
        "builder" => style(to_writer_custom(), o, &log).write(&v, w.clone()),
        "writer" => to_writer(&v, w.clone()),
        "string" => {
            let s = to_string(&v);
            w.clone().write_str(&s)
        }
        _ => {
            let alt = how == "alt";
            macro_rules! show {
                ($x:expr) => {{
                    let (x, mut w) = ($x, w.clone());
                    if alt { write!(w, "{x:#}") } else { write!(w, "{x}") }
                }};
            }
            match (what, &v.value) {
                ("value", _) => show!(&v),
                ("comp", ValueDef::Composite(c)) => show!(c),
                ("variant", ValueDef::Variant(x)) => show!(x),
                ("prim", ValueDef::Primitive(p)) => show!(p),
                (_, d) => show!(d),
            }
        }
    };
    let k = w.0.borrow();
    outcome(json!({"r": if r.is_ok() { "ok" } else { "err" }, "s": text(&k.s), "log": *log.borrow(), "after": k.after}))
}

pub fn hexf(ev: &J) -> Out {
    let v: V = from_json(&ev["v"]);
    let mut s = String::new();
    let r = match format_hex(&v, &mut s) {
        None => "none",
        Some(Ok(())) => "ok",
        Some(Err(_)) => "err",
    };
    outcome(json!({"r": r, "s": text(&s)}))
}

fn err_json(e: &ParseError) -> J {
    let n = |x: usize| json!([x]);
    let (kind, a) = match &e.err {
        ParseErrorKind::ExpectedValue => ("ExpectedValue", json!([])),
        ParseErrorKind::Complex(c) => match c {
            ParseComplexError::InvalidStartingCharacterInIdent => ("IdentStart", json!([])),
            ParseComplexError::InvalidFieldName => ("FieldName", json!([])),
            ParseComplexError::MissingFieldSeparator(c) => ("FieldSeparator", n(*c as usize)),
            ParseComplexError::ExpectedCloserToMatch(c, p) => ("Closer", json!([*c as u32, p])),
        },
        ParseErrorKind::Char(c) => match c {
            ParseCharError::ExpectedValidCharacter => ("CharMissing", json!([])),
            ParseCharError::ExpectedValidEscapeCode => ("CharEscape", json!([])),
            ParseCharError::ExpectedClosingQuoteToMatch(p) => ("CharClosingQuote", n(*p)),
        },
        ParseErrorKind::String(s) => match s {
            ParseStringError::ExpectedClosingQuoteToMatch(p) => ("StringClosingQuote", n(*p)),
            ParseStringError::ExpectedValidEscapeCode => ("StringEscape", json!([])),
        },
        ParseErrorKind::Number(x) => match x {
            ParseNumberError::ExpectedDigit => ("NumberDigit", json!([])),
            ParseNumberError::ParsingFailed(p) => match p.kind() {
                std::num::IntErrorKind::PosOverflow => ("NumberParse", n(0)),
                std::num::IntErrorKind::NegOverflow => ("NumberParse", n(1)),
                _ => ("NumberParse", n(2)),
            },
        },
        ParseErrorKind::BitSequence(b) => match b {
            ParseBitSequenceError::ExpectedClosingBracketToMatch(p) => ("BitsClosingBracket", n(*p)),
            ParseBitSequenceError::InvalidCharacter => ("BitsInvalid", json!([])),
        },
        ParseErrorKind::Custom(s) => ("Custom", text(s)),
    };
    let big = |x: usize| x.min(2_000_000_000);
    json!({"kind": kind, "a": a, "s": big(e.start_loc), "h": e.end_loc.is_some(), "t": big(e.end_loc.unwrap_or(0))})
}

/// the same error made in any of the ways there are
fn made(msg: String, h: bool, es: usize, et: usize) -> ParseError {
    struct Shown(String);
    impl fmt::Debug for Shown {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    let way = es + et + msg.len();
    let kind = match way % 4 {
        0 => ParseErrorKind::custom(&msg),
        1 => ParseErrorKind::custom_debug(Shown(msg)),
        2 => ParseErrorKind::from(msg),
        _ => ParseErrorKind::Custom(msg),
    };
    match (h, way / 4 % 2 == 0) {
        (false, true) => kind.at(es),
        (false, false) => ParseError::new_at(kind, es),
        (true, _) if et == es + 1 => kind.at_one(es),
        (true, true) => kind.between(es, et),
        (true, false) => ParseError::new_between(kind, es, et),
    }
}

type Parser = Box<dyn Fn(&mut &str) -> Option<Result<Value<()>, ParseError>>>;
fn skip_chars(s: &str, n: usize) -> usize {
    s.char_indices().nth(n).map_or(s.len(), |x| x.0)
}
fn parser(p: &J, q: u32, log: &Log) -> Parser {
    let (p, l) = (p.clone(), log.clone());
    Box::new(move |s: &mut &str| {
        l.borrow_mut().push([q, s.len() as u32]);
        match p["kind"].as_str().unwrap() {
            "hex" => parse_hex(s),
            "ss58" => parse_ss58(s),
            _ => {
                let lit = untext(&p["lit"]);
                let all: &str = s;
                if !all.starts_with(&lit) {
                    return None;
                }
                let rest = &all[lit.len()..];
                let n = |k: &str| p[k].as_u64().unwrap() as usize;
                match p["res"].as_str().unwrap() {
                    "ok" => {
                        *s = &rest[skip_chars(rest, n("eat"))..];
                        Some(Ok(from_json(&p["v"])))
                    }
                    "err" => {
                        *s = &all[skip_chars(all, n("drift"))..];
                        Some(Err(made(lit, p["eh"] == true, n("es"), n("et"))))
                    }
                    _ => {
                        *s = &all[skip_chars(all, n("drift"))..];
                        None
                    }
                }
            }
        }
    })
}

pub fn parse(ev: &J, last: &str) -> Out {
    let own;
    let s: &str = if ev["last"] == true {
        last
    } else {
        own = untext(&ev["s"]);
        &own
    };
    let log = Log::default();
    let ps = ev["ps"].as_array().unwrap();
    let (r, rest) = if ps.is_empty() && ev["how"] == "fn" {
        from_str(s)
    } else {
        let mut b = from_str_custom();
        for (q, p) in ps.iter().enumerate() {
            b = b.add_custom_parser(parser(p, q as u32 + 1, &log));
        }
        // a builder can be used again and again
        let first = b.parse(s);
        if ev["how"] == "again" {
            log.borrow_mut().clear();
            b.parse(s)
        } else {
            first
        }
    };
    let suffix = s.ends_with(rest) && rest.as_ptr() as usize + rest.len() == s.as_ptr() as usize + s.len();
    let log = log.borrow().clone();
    match r {
        Ok(v) => outcome(json!({"r": "ok", "v": to_json(&v), "rest": rest.len(), "suffix": suffix, "log": log})),
        Err(e) => outcome(json!({"r": "err", "e": err_json(&e), "text": text(&e.to_string()), "rest": rest.len(), "suffix": suffix, "log": log})),
    }
}

pub fn own(ev: &J) -> Out {
    let all = untext(&ev["s"]);
    let mut s: &str = &all;
    let r = if ev["op"] == "hexp" { parse_hex(&mut s) } else { parse_ss58(&mut s) };
    match r {
        None => outcome(json!({"r": "none", "rest": s.len()})),
        Some(Ok(v)) => outcome(json!({"r": "ok", "v": to_json(&v), "rest": s.len()})),
        Some(Err(e)) => outcome(json!({"r": "err", "e": err_json(&e), "rest": s.len()})),
    }
}
