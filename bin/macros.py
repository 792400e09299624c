"""Invocations of the value macro: a Rust program that contains them (used by check)."""
import json, os, random, re

LETS = [
    ("flag", "let flag = true;"),
    ("num", "let num = 9i32;"),
    ("val", "let val = inner();"),
    ("fields", "let fields = 41u8;"),
    ("field_name", 'let field_name = "f";'),
    ("variant_name", "let variant_name = 'v';"),
    ("token", "let token = true;"),
    ("text", "let text = String::from(\"t\\\"\");"),
    ("bits", "let bits = bits();"),
    ("comp", "let comp = Composite::Unnamed(vec![Value::u128(7)]);"),
    ("variant", 'let variant = Variant::unnamed_fields("b", vec![]);'),
    ("prim", "let prim = Value::char('p');"),
    ("arr", "let arr = [10u8, 20];"),
    ("tup", "let tup = (1u8, 'z');"),
    ("pairs", 'let pairs = vec![("b", true)];'),
    ("n", "let n = Counter(std::cell::Cell::new(0));"),
]
HEAD = """#![allow(warnings)]
#[path = "{harness}/src/vals.rs"]
mod vals;
mod types {{
    use serde_json::{{json, Value as J}};
    pub fn text(s: &str) -> J {{
        J::Array(s.chars().map(|c| json!(c as u32)).collect())
    }}
    pub fn untext(_: &J) -> String {{
        unreachable!()
    }}
}}
mod names {{
    pub use scale_value::{{value, BitSequence, Composite, Primitive, Value, ValueDef, Variant}};
    pub struct Counter(pub std::cell::Cell<u64>);
    impl Counter {{
        pub fn one_more(&self) -> u64 {{
            self.0.replace(self.0.get() + 1)
        }}
    }}
    pub fn inner() -> Value {{
        let fs = vec![("a".to_string(), Value::u128(1)), ("a".to_string(), Value::bool(true))];
        Value {{ value: ValueDef::Composite(Composite::Named(fs)), context: () }}
    }}
    pub fn bits() -> BitSequence {{
        let mut b = BitSequence::new();
        for x in [true, false, true] {{
            b.push(x)
        }}
        b
    }}
}}
{mods}
fn main() {{
    std::panic::set_hook(Box::new(|_| {{}}));
    let all: Vec<(usize, fn() -> scale_value::Value)> = [{alls}].concat();
    let mut out = String::new();
    for (i, f) in all {{
        let o = match std::panic::catch_unwind(f) {{
            Ok(v) => serde_json::json!({{"r": "ok", "v": vals::to_json(&v)}}),
            Err(_) => serde_json::json!({{"r": "panic"}}),
        }};
        out += &format!("{{}}\\n", serde_json::json!({{"i": i, "out": o}}));
    }}
    std::fs::write(std::env::args().nth(1).unwrap(), out).unwrap();
}}
"""
STYLES = ["value!({})", "value!{{{}}}", "value![{}]", "scale_value::value!({})", "value! ( {} )"]


def chars(cs):
    return "".join(map(chr, cs))


def quoted(s):
    """a Rust string literal"""
    out = []
    for i, c in enumerate(s):
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif " " <= c < "\x7f" or c.isalpha():
            out.append(c)
        else:
            out.append("\\u{%x}" % ord(c))
    return '"' + "".join(out) + '"'


def lit(d):
    if d["k"] == "bool":
        return "true" if d["b"] else "false"
    if d["k"] == "str":
        return quoted(chars(d["s"]))
    if d["k"] == "char":
        c = chr(d["c"])
        return "'" + ("\\'" if c == "'" else quoted(c)[1:-1] if c != '"' else c) + "'"
    m = sum(b << (8 * i) for i, b in enumerate(d["i"]))
    return ("-" if d["neg"] else "") + str(m) + d["ty"]


def join(xs, tc):
    return ", ".join(xs) + ("," if tc and xs else "")


def render(t):
    m = t["m"]
    if m == "lit":
        return lit(t["d"])
    if m == "expr":
        return t["rs"]
    if m == "list":
        return "(" + join([render(x) for x in t["xs"]], t["tc"]) + ")"
    if m == "named":
        return "{ " + join([(quoted(chars(e["s"])) if e["q"] else chars(e["s"])) + ": " + render(e["x"]) for e in t["es"]], t["tc"]) + " }"
    if m == "var":
        c = render(t["c"])
        return chars(t["n"]) + (c if t["c"]["m"] == "list" else " " + c)
    return ""


def words(t):
    """the names the expressions of an invocation use"""
    if t["m"] == "expr":
        code = re.sub(r'"(\\.|[^"\\])*"', "", t["rs"])
        return {w for w in re.findall(r"(?<![\w.:])[a-z_]+\b(?!\s*[(!:])", code)}
    subs = t.get("xs") or [e["x"] for e in t.get("es", [])] or ([t["c"]] if t["m"] == "var" else [])
    return set().union(*[words(s) for s in subs]) if subs else set()


def program(trees, harness, mods):
    """files of the program: {name: text}; invocation i is on its own line of module i % mods"""
    files, where = {}, {}
    chunks = [[] for _ in range(mods)]
    for i, t in enumerate(trees):
        chunks[i % mods].append((i, t))
    for k, c in enumerate(chunks):
        lines = ["use crate::names::*;"]
        for i, t in c:
            w = words(t)
            lets = " ".join(s for n, s in LETS if n in w)
            lines.append(f"fn f{i}() -> Value {{ {lets} {STYLES[i % len(STYLES)].format(render(t))} }}")
            where[(f"c{k}.rs", len(lines))] = i
        lines.append("pub const ALL: &[(usize, fn() -> Value)] = &[" + ", ".join(f"({i}, f{i})" for i, _ in c) + "];")
        files[f"c{k}.rs"] = "\n".join(lines) + "\n"
    files["main.rs"] = HEAD.format(harness=harness, mods="\n".join(f"mod c{k};" for k in range(mods)),
                                   alls=", ".join(f"c{k}::ALL" for k in range(mods)))
    return files, where


# ---------------------------------------------------------------- random invocations
def exprs_of(t, out):
    if t["m"] == "expr":
        out[t["rs"]] = t
    for s in t.get("xs", []) + [e["x"] for e in t.get("es", [])] + ([t["c"]] if t["m"] == "var" else []):
        exprs_of(s, out)


def random_tree(r, exprs, depth):
    def name():
        n = r.choice("abcdefgxyzTUVW_é") + "".join(r.choice("abz09_Z") for _ in range(r.randrange(5)))
        return "w" + n if n in KEYWORDS or n == "_" else n

    def key():
        if r.random() < 0.4:
            return True, "".join(chr(r.choice([34, 92, 10, 32, 97, 58, 44, 123, 233, 0x1f600, 0, 48, 117])) for _ in range(r.randrange(4)))
        return False, name()

    def body(named):
        k = r.choice([0, 1, 1, 2, 2, 3, 4]) if depth else 0
        tc = r.random() < 0.4
        if named:
            es = []
            for _ in range(k):
                q, s = key()
                es.append({"q": q, "s": [ord(c) for c in s], "x": random_tree(r, exprs, depth - 1)})
            return {"m": "named", "es": es, "tc": tc}
        return {"m": "list", "xs": [random_tree(r, exprs, depth - 1) for _ in range(k)], "tc": tc}

    c = r.random()
    if depth and c < 0.7:
        b = body(r.random() < 0.5)
        return {"m": "var", "n": [ord(x) for x in name()], "c": b} if r.random() < 0.4 else b
    if c < 0.85:
        return exprs["n.one_more()"] if r.random() < 0.6 else r.choice(sorted(exprs.values(), key=lambda t: t["rs"]))
    k = r.choice(["bool", "str", "char", "int", "int"])
    if k == "bool":
        d = {"k": k, "b": r.random() < 0.5}
    elif k == "str":
        d = {"k": k, "s": [r.choice([34, 92, 10, 97, 0x1f600, 0, 123, 40]) for _ in range(r.randrange(5))]}
    elif k == "char":
        d = {"k": k, "c": r.choice([34, 39, 92, 0, 97, 0x10ffff, 0xd7ff])}
    else:
        ty = r.choice(["", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"])
        w = {"": 32, "usize": 64, "isize": 64}.get(ty) or int(ty[1:])
        signed = ty[:1] in ("", "i")
        m = r.randrange(1 << r.randrange(w - signed + 1))
        neg = signed and m > 0 and r.random() < 0.5
        by = []
        while m:
            by.append(m & 255)
            m >>= 8
        d = {"k": k, "ty": ty, "neg": neg, "i": by}
    return {"m": "lit", "d": d}


KEYWORDS = set("as b break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self "
               "static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override "
               "priv typeof unsized virtual yield try gen".split())


def twice_used(t):
    """expressions that use up what they name can only be written once"""
    count = {}

    def go(t):
        if t["m"] == "expr" and t["rs"] in ("val", "text", "comp", "variant", "prim"):
            count[t["rs"]] = count.get(t["rs"], 0) + 1
        if t["m"] == "expr" and t["rs"] == "val.clone()":
            count["val"] = count.get("val", 0) + 1
        if t["m"] == "expr" and t["rs"] in ("text.as_str()", "&*text"):
            count["text"] = count.get("text", 0) + 1
        for s in t.get("xs", []) + [e["x"] for e in t.get("es", [])] + ([t["c"]] if t["m"] == "var" else []):
            go(s)
    go(t)
    return any(n > 1 for n in count.values())


def randoms(seed, n, exprs):
    r = random.Random(seed)
    out = []
    while len(out) < n:
        t = random_tree(r, exprs, r.choice([1, 2, 3, 3, 4]))
        if not twice_used(t):
            out.append(t)
    return out
