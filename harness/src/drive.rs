//! Drives the real library, one session at a time, for one property.
use crate::exec::Session;
use crate::gen::*;
use crate::rng::Rng;
use crate::types::*;
use crate::vals::{from_json, to_json, V};
use crate::Cur;
use scale_value::{Composite, Value, ValueDef, Variant};
use serde_json::{json, Value as J};

pub struct Driver {
    prop: String,
    r: Rng,
    cur: Cur,
    n: u64,
}

/// A session being recorded.
pub struct Rec<'a> {
    s: Session,
    reg: J,
    evs: Vec<J>,
    cur: &'a mut Cur,
}
impl<'a> Rec<'a> {
    fn new(reg: Reg, cur: &'a mut Cur) -> Rec<'a> {
        let j = reg.to_json();
        cur.start(&j);
        Rec { s: Session::new(reg), reg: j, evs: vec![], cur }
    }
    pub fn run(&mut self, mut ev: J) -> J {
        self.cur.set(&ev);
        let out = self.s.step(&ev);
        ev["out"] = out.clone();
        self.evs.push(ev);
        out
    }
    fn end(self) -> J {
        json!({"reg": self.reg, "evs": self.evs})
    }
    fn enc(&mut self, ty: u32, v: &V, how: &str) -> J {
        self.run(json!({"op": "enc", "ty": ty, "v": to_json(v), "how": how}))
    }
    fn dec(&mut self, ty: u32, how: &str, keep: bool) -> J {
        self.run(json!({"op": "dec", "ty": ty, "how": how, "keep": keep}))
    }
    fn load(&mut self, b: &[u8]) {
        self.run(json!({"op": "load", "b": b}));
    }
    fn setbuf(&mut self, b: &[u8]) {
        self.run(json!({"op": "setbuf", "b": b}));
    }
    fn feed(&mut self) {
        self.run(json!({"op": "feed"}));
    }
}
pub fn ok(o: &J) -> bool {
    o["r"] == "ok"
}

pub fn nesting(j: &J) -> usize {
    match j {
        J::Array(xs) => 1 + xs.iter().map(nesting).max().unwrap_or(0),
        J::Object(m) => 1 + m.values().map(nesting).max().unwrap_or(0),
        _ => 0,
    }
}

impl Driver {
    pub fn new(prop: &str, seed: u64, cur: Cur) -> Driver {
        let h = prop.bytes().fold(seed.wrapping_mul(1_000_003), |a, b| a.wrapping_mul(131) + b as u64);
        Driver { prop: prop.into(), r: Rng::new(h), cur, n: 0 }
    }

    pub fn session(&mut self) -> J {
        self.n += 1;
        let mut j = match self.prop.as_str() {
            "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12"
            | "C13" | "C14" | "C31" | "C32" => self.scale(),
            "C15" | "C16" | "C17" | "C18" | "C19" | "C20" | "C21" | "C22" => self.text(),
            "C23" | "C24" | "C25" | "C26" | "C27" | "C28" | "C30" => self.data(),
            p => panic!("no driver for {p}"),
        };
        if nesting(&j) > 250 {
            // more than the reader of the checker takes
            return self.session();
        }
        j["sid"] = json!(self.n);
        j
    }

    fn text(&mut self) -> J {
        use crate::drive_text::*;
        let r = &mut self.r;
        let mut x = Rec::new(Reg::from_json(&json!([])), &mut self.cur);
        for _ in 0..r.range(2, 4) {
            match self.prop.as_str() {
                "C15" => c15(r, &mut x),
                "C16" => c16(r, &mut x),
                "C17" => c17(r, &mut x),
                "C18" | "C19" => c18(r, &mut x),
                "C20" => c20(r, &mut x),
                "C21" => c21(r, &mut x),
                _ => c22(r, &mut x),
            }
        }
        x.end()
    }

    fn data(&mut self) -> J {
        use crate::drive_data::*;
        let r = &mut self.r;
        let mut x = Rec::new(Reg::from_json(&json!([])), &mut self.cur);
        match self.prop.as_str() {
            "C23" => c23(r, &mut x),
            "C24" => c24(r, &mut x),
            "C25" => c25(r, &mut x),
            "C26" => c26(r, &mut x),
            "C27" => c27(r, &mut x),
            "C30" => c30(r, &mut x),
            _ => c28(r, &mut x),
        }
        x.end()
    }

    fn scale(&mut self) -> J {
        let r = &mut self.r;
        let prop = self.prop.as_str();
        let opts = match prop {
            "C01" | "C02" | "C06" | "C07" | "C08" => PLAIN,
            _ => ANY,
        };
        let n = r.range(4, 11);
        let deep = r.pct(10);
        set_deep(if deep { *r.pick(&[10, 20, 30, 40, 56]) } else { 4 });
        let mut reg = gen_reg(r, n, &opts);
        let shallow = reg.defs.len();
        if deep {
            add_recursive(r, &mut reg);
        }
        let known = reg.defs.len();
        if prop == "C14" {
            for w in [8, 16, 32, 64] {
                for m in [false, true] {
                    reg.defs.push(Def::Bits(w, m));
                }
            }
        }
        let types = reg.defs.len();
        let mut x = Rec::new(reg, &mut self.cur);
        for _ in 0..r.range(2, 4) {
            // later ids are not special; any type will do, sometimes one that is not there
            let ty = match r.below(100) {
                0 => types as u32 + 3,
                1..=70 if deep => r.range(shallow, known - 1) as u32,
                _ => r.below(types) as u32,
            };
            match prop {
                "C01" => c01(r, &mut x, ty),
                "C02" => c02(r, &mut x, ty),
                "C03" | "C05" => decode_any(r, &mut x, ty),
                "C04" => c04(r, &mut x, types),
                "C06" => c06(r, &mut x, ty),
                "C07" => c07(r, &mut x, ty),
                "C08" => c08(r, &mut x, ty),
                "C09" => c09(r, &mut x, ty),
                "C10" => c10(r, &mut x, ty),
                "C11" | "C12" => c11(r, &mut x, ty),
                "C13" => c13(r, &mut x, types),
                "C31" => c31(r, &mut x, ty),
                "C32" => c32(r, &mut x, ty),
                _ => c14(r, &mut x, types),
            }
        }
        x.end()
    }
}

/// bytes of an exact value, by the library itself (whatever it makes of it)
fn exact_bytes(r: &mut Rng, x: &Rec, ty: u32) -> Option<Vec<u8>> {
    let v = gen_exact(r, &x.s.reg, ty, 0)?;
    let mut b = vec![];
    x.s.reg.calls.set(0);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        scale_value::scale::encode_as_type(&v, ty, &x.s.reg, &mut b).ok()
    }))
    .ok()??;
    Some(b)
}
/// an independent encoder, so that bytes of types the library cannot encode are made too
fn some_bytes(r: &mut Rng, x: &Rec, ty: u32) -> Vec<u8> {
    let mut b = match r.below(10) {
        0 => gen_bytes(r, 12),
        _ => {
            let mut b = vec![];
            if raw(r, &x.s.reg, ty, &mut b, 0, false) {
                b
            } else {
                exact_bytes(r, x, ty).unwrap_or_else(|| gen_bytes(r, 40))
            }
        }
    };
    if r.pct(30) {
        let n = r.range(1, 5);
        for _ in 0..n {
            b.push(r.byte())
        }
    }
    b
}
fn compact(m: u128, out: &mut Vec<u8>) {
    use codec::{Compact, Encode};
    Compact(m).encode_to(out)
}
/// random well-formed bytes of the type
fn raw(r: &mut Rng, reg: &Reg, ty: u32, out: &mut Vec<u8>, depth: usize, cpt: bool) -> bool {
    let Some(deep) = depth_now(depth) else { return false };
    let Some(d) = reg.get(ty) else { return false };
    match d {
        Def::Prim(p) => match *p {
            "bool" => out.push(r.below(2) as u8),
            "char" => out.extend((*r.pick(&CHARS) as u32).to_le_bytes()),
            "str" => {
                let s = gen_string(r, 4);
                compact(s.len() as u128, out);
                out.extend(s.bytes());
            }
            p => {
                let w = width(p);
                if w == 256 {
                    out.extend(gen_256(r))
                } else {
                    let m = gen_uint(r, w);
                    if cpt {
                        compact(m, out)
                    } else {
                        out.extend(&m.to_le_bytes()[..w as usize / 8])
                    }
                }
            }
        },
        Def::Compact(i) => return raw(r, reg, *i, out, depth + 1, true),
        Def::Seq(i) => {
            let n = long_list(r, reg, *i).unwrap_or_else(|| how_many(r, deep));
            compact(n as u128, out);
            for _ in 0..n {
                if !raw(r, reg, *i, out, depth + 1, false) {
                    return false;
                }
            }
        }
        Def::Arr(n, i) => {
            for _ in 0..*n {
                if !raw(r, reg, *i, out, depth + 1, cpt) {
                    return false;
                }
            }
        }
        Def::Tup(is) => return is.iter().all(|i| raw(r, reg, *i, out, depth + 1, cpt)),
        Def::Comp(fs) => return fs.iter().all(|f| raw(r, reg, f.id, out, depth + 1, cpt)),
        Def::Var(vs) => {
            let v = which(r, vs, deep);
            out.push(v.index);
            return v.fields.iter().all(|f| raw(r, reg, f.id, out, depth + 1, false));
        }
        Def::Bits(w, _) => {
            let n: usize = if r.0 % 37 == 0 { *r.pick(&[127, 128, 129, 255, 256, 257, 513]) } else { *r.pick(&[0, 1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65]) };
            compact(n as u128, out);
            let words = (n as usize).div_ceil(*w as usize);
            for _ in 0..words * (*w as usize / 8) {
                out.push(r.byte())
            }
        }
    }
    true
}

fn c01(r: &mut Rng, x: &mut Rec, ty: u32) {
    if r.pct(60) {
        let mut b = some_bytes(r, x, ty);
        if r.pct(20) {
            b = mutate(r, b)
        }
        x.load(&b);
        let o = x.dec(ty, "plain", false);
        if ok(&o) {
            x.setbuf(&[]);
            let v: V = from_json(&o["v"]);
            x.enc(ty, &v, "fn");
        }
    } else if let Some(v) = gen_exact(r, &x.s.reg, ty, 0) {
        x.setbuf(&[]);
        if ok(&x.enc(ty, &v, "fn")) {
            x.feed();
            x.dec(ty, "plain", false);
        }
    }
}
fn c02(r: &mut Rng, x: &mut Rec, ty: u32) {
    if let Some(v) = gen_exact(r, &x.s.reg, ty, 0) {
        let b = gen_bytes(r, 3);
        x.setbuf(&b);
        let how = *r.pick(&["fn", "unit", "own"]);
        x.enc(ty, &v, how);
    }
}
fn decode_any(r: &mut Rng, x: &mut Rec, ty: u32) {
    let mut b = some_bytes(r, x, ty);
    let bad = x.evs.len() % 2 == 0;
    if bad {
        b = mutate(r, b)
    }
    if r.pct(3) {
        // a huge claimed length
        let n = r.below(b.len() + 1);
        b.truncate(n);
        b.extend(r.pick(&[[254, 255, 255, 255, 0], [3, 255, 255, 255, 127], [19, 255, 255, 255, 255], [2, 0, 1, 0, 7]]));
    }
    x.load(&b);
    let how = *r.pick(&["plain", "plain", "unit", "trace"]);
    x.dec(ty, how, false);
}
fn c04(r: &mut Rng, x: &mut Rec, types: usize) {
    // values written back to back
    let n = r.range(1, 4);
    let mut b = vec![];
    let mut tys = vec![];
    for _ in 0..n {
        let ty = r.below(types) as u32;
        let mut one = vec![];
        if raw(r, &x.s.reg, ty, &mut one, 0, false) {
            b.extend(one);
            tys.push(ty);
        }
    }
    if r.pct(60) {
        b.extend(gen_bytes(r, 4));
    }
    x.load(&b);
    for ty in tys {
        let how = *r.pick(&["plain", "unit", "trace"]);
        if !ok(&x.dec(ty, how, false)) {
            break;
        }
    }
}
fn any_value_for(r: &mut Rng, x: &Rec, ty: u32) -> V {
    let v = gen_exact(r, &x.s.reg, ty, 0).unwrap_or_else(|| gen_value(r, 3));
    match r.below(8) {
        0 | 1 => v,
        2 => lenient(r, &x.s.reg, ty, v, 40),
        3 => respell(r, v),
        4 => realign(r, v, 50),
        5 => spoil(r, v),
        6 => {
            let v = lenient(r, &x.s.reg, ty, v, 30);
            spoil(r, v)
        }
        _ => gen_value(r, 3),
    }
}
fn c06(r: &mut Rng, x: &mut Rec, ty: u32) {
    let v = any_value_for(r, x, ty);
    let how = *r.pick(&["fn", "unit"]);
    // the same call into an empty and a used buffer, then once more after it
    x.setbuf(&[]);
    x.enc(ty, &v, "fn");
    let b = gen_bytes(r, 6);
    x.setbuf(&b);
    x.enc(ty, &v, how);
    x.enc(ty, &v, how);
}
fn c07(r: &mut Rng, x: &mut Rec, ty: u32) {
    if let Some(v) = gen_exact(r, &x.s.reg, ty, 0) {
        let pct = *r.pick(&[10, 30, 60, 100, 101]);
        let w = lenient(r, &x.s.reg, ty, v.clone(), pct);
        x.setbuf(&[]);
        x.run(json!({"op": "enc", "ty": ty, "v": to_json(&w), "exact": to_json(&v), "how": "fn"}));
    }
}
fn c08(r: &mut Rng, x: &mut Rec, ty: u32) {
    if let Some(v) = gen_exact(r, &x.s.reg, ty, 0) {
        let pct = *r.pick(&[30, 60, 100]);
        let w = realign(r, v, pct);
        x.setbuf(&[]);
        x.enc(ty, &w, "fn");
    }
}
fn c09(r: &mut Rng, x: &mut Rec, ty: u32) {
    let v = any_value_for(r, x, ty);
    x.setbuf(&[]);
    x.enc(ty, &v, "fn");
}
fn depth_of(v: &V) -> usize {
    match &v.value {
        ValueDef::Composite(c) | ValueDef::Variant(Variant { values: c, .. }) => 1 + c.values().map(depth_of).max().unwrap_or(0),
        _ => 0,
    }
}
fn c10(r: &mut Rng, x: &mut Rec, ty: u32) {
    // nested single-value composites around something that does not fit
    let mut v = any_value_for(r, x, ty);
    let top = match rank(&x.s.reg, ty, 0) {
        Some(0 | 1) => 64,
        Some(2) => 40,
        Some(3) => 24,
        Some(_) => 16,
        None if list_cycle(&x.s.reg, ty) => 6,
        None => 64,
    };
    // the whole of it no higher than a tower on this type may be
    let top = top.max(depth_of(&v) + 2) - depth_of(&v);
    let depth = *r.pick(&[0, 1, 2, 3, top / 2, top - 1, top, top]);
    let style = r.below(3);
    for i in 0..depth {
        if crate::vals::nesting(&v) > 240 {
            break;
        }
        v = match (style, i % 2) {
            (0, _) | (2, 0) => unnamed(vec![v]),
            _ => named(vec![("a".into(), v)]),
        };
    }
    x.setbuf(&[]);
    x.run(json!({"op": "enc", "ty": ty, "v": to_json(&v), "how": "fn", "cap": 2_000_000}));
}
fn c11(r: &mut Rng, x: &mut Rec, ty: u32) {
    let mut b = match x.s.reg.get(ty) {
        // long lists of anything small
        Some(Def::Seq(i)) if r.pct(15) => {
            let (n, mut one) = (*r.pick(&[70, 130, 140, 260, 300]), vec![]);
            if raw(r, &x.s.reg, *i, &mut one, 0, false) && (1..5).contains(&one.len()) {
                let mut b = vec![];
                compact(n, &mut b);
                for _ in 0..n {
                    b.extend(&one);
                }
                b
            } else {
                some_bytes(r, x, ty)
            }
        }
        _ => some_bytes(r, x, ty),
    };
    if b.len() > 60 && r.pct(60) {
        // long lists fail late, too
        let n = b.len() - r.range(1, 20);
        if r.pct(50) {
            b.truncate(n);
        } else {
            b[n] = 0xff;
        }
    } else if r.pct(70) {
        b = mutate(r, b)
    }
    x.load(&b);
    x.dec(ty, "plain", true);
    x.dec(ty, "trace", false);
}
fn c32(r: &mut Rng, x: &mut Rec, ty: u32) {
    let n = x.s.reg.defs.len();
    let fault = |r: &mut Rng| {
        if r.pct(40) {
            let mut gone = vec![r.below(n)];
            if r.pct(30) {
                gone.push(r.below(n + 1));
            }
            json!({"gone": gone, "err": r.pct(50), "from": 0, "once": false})
        } else {
            json!({"gone": [], "err": true, "from": if r.pct(70) { r.range(1, 8) } else { r.range(1, 40) }, "once": r.pct(50)})
        }
    };
    let v = any_value_for(r, x, ty);
    let fs = match x.s.reg.defs.get(ty as usize) {
        Some(Def::Comp(fs)) if r.pct(30) => Some(flds_to_json(fs)),
        _ => None,
    };
    x.setbuf(&gen_bytes(r, 2));
    for _ in 0..r.range(1, 4) {
        let f = fault(r);
        match &fs {
            Some(fs) => x.run(json!({"op": "encf", "fs": fs, "v": to_json(&v), "how": *r.pick(&["comp", "value"]), "fault": f})),
            None => x.run(json!({"op": "enc", "ty": ty, "v": to_json(&v), "how": *r.pick(&["fn", "unit", "own"]), "fault": f})),
        };
    }
    let b = some_bytes(r, x, ty);
    x.load(&b);
    for _ in 0..r.range(1, 4) {
        let f = fault(r);
        match &fs {
            Some(fs) => x.run(json!({"op": "decf", "fs": fs, "how": *r.pick(&["plain", "value", "unit"]), "keep": true, "fault": f})),
            None => x.run(json!({"op": "dec", "ty": ty, "how": *r.pick(&["plain", "trace", "trace", "unit"]), "keep": true, "fault": f})),
        };
    }
}
fn c31(r: &mut Rng, x: &mut Rec, ty: u32) {
    let v = gen_exact(r, &x.s.reg, ty, 0).unwrap_or_else(|| gen_value(r, 3));
    let v = match r.below(5) {
        0 => lenient(r, &x.s.reg, ty, v, 40),
        1 => realign(r, v, 40),
        _ => v,
    };
    // lists are of a length and fail anywhere along it
    let v = match v.value {
        ValueDef::Composite(Composite::Unnamed(vs)) if r.pct(15) && !vs.is_empty() && crate::vals::nesting(&vs[0]) < 4 => {
            let n = *r.pick(&[3, 10, 11, 100, 260]);
            let at = r.below(n);
            let good = vs[0].clone();
            let bad = if r.pct(50) { spoil(r, good.clone()) } else { gen_leaf(r) };
            let named = r.pct(20);
            let vs = (0..n).map(|i| if i == at { bad.clone() } else { good.clone() });
            if named {
                node(ValueDef::Composite(Composite::Named(vs.enumerate().map(|(i, v)| (if r.pct(50) { format!("a{i}") } else { (n - 1 - i).to_string() }, v)).collect())))
            } else {
                unnamed(vs.collect())
            }
        }
        value => spoil(r, Value { value, context: v.context }),
    };
    let v = if r.pct(15) { spoil(r, v) } else { v };
    let b = gen_bytes(r, 2);
    x.setbuf(&b);
    let fs = x.s.reg.defs.get(ty as usize).and_then(|d| match d {
        Def::Comp(fs) => Some(flds_to_json(fs)),
        _ => None,
    });
    match fs {
        Some(fs) if r.pct(40) => {
            let how = *r.pick(&["comp", "value"]);
            x.run(json!({"op": "encf", "fs": fs, "v": to_json(&v), "how": how}));
        }
        _ => {
            let how = *r.pick(&["fn", "unit", "own"]);
            x.enc(ty, &v, how);
        }
    }
}
fn c13(r: &mut Rng, x: &mut Rec, types: usize) {
    let ids: Vec<u32> = (0..types as u32).collect();
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
    let fs = gen_fields(r, n, &ids, &ANY);
    let fj = flds_to_json(&fs);
    if r.pct(50) {
        let v = match gen_exact_fields(r, &x.s.reg, &fs, 0) {
            Some(c) => node(ValueDef::Composite(c)),
            None => gen_value(r, 2),
        };
        let v = match r.below(6) {
            0 | 1 => v,
            2 => spoil(r, v),
            3 => match (r.below(3), v.value) {
                (0, _) => gen_leaf(r),
                // the fields of a variant are not fields
                (_, ValueDef::Composite(values)) => {
                    node(ValueDef::Variant(Variant { name: r.pick(&VNAMES).to_string(), values }))
                }
                (_, value) => node(value),
            },
            _ => realign(r, v, 60),
        };
        let b = gen_bytes(r, 3);
        x.setbuf(&b);
        let how = *r.pick(&["comp", "value"]);
        x.run(json!({"op": "encf", "fs": fj, "v": to_json(&v), "how": how}));
    } else {
        let mut b = vec![];
        let mut all = true;
        for f in &fs {
            all = all && raw(r, &x.s.reg, f.id, &mut b, 1, false);
        }
        b.extend(gen_bytes(r, 3));
        if r.pct(30) {
            b = mutate(r, b)
        }
        x.load(&b);
        let how = *r.pick(&["plain", "unit", "value"]);
        x.run(json!({"op": "decf", "fs": fj, "how": how, "keep": false}));
    }
}
fn c14(r: &mut Rng, x: &mut Rec, types: usize) {
    let ty = (types - 1 - r.below(8)) as u32;
    let bits = gen_bits(r);
    let v = node(ValueDef::BitSequence(bits));
    let v = match r.below(4) {
        0 | 1 => v,
        2 => respell(r, v),
        _ => {
            let v = respell(r, v);
            spoil(r, v)
        }
    };
    x.setbuf(&[]);
    if ok(&x.enc(ty, &v, "fn")) {
        x.feed();
        x.dec(ty, "plain", false);
    } else {
        let b = some_bytes(r, x, ty);
        x.load(&b);
        x.dec(ty, "plain", false);
    }
}
#[allow(dead_code)]
fn unit(v: &V) -> Value<()> {
    v.clone().remove_context()
}
#[allow(dead_code)]
type C = Composite<u32>;

/// does the type recurse through a list?
fn list_cycle(reg: &Reg, id: u32) -> bool {
    let reach = |from: Vec<u32>| {
        let mut seen = std::collections::BTreeSet::new();
        let mut todo = from;
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                todo.extend(succs(reg, i))
            }
        }
        seen
    };
    reach(vec![id]).into_iter().any(|i| {
        matches!(reg.get(i), Some(Def::Seq(_) | Def::Arr(..))) && reach(succs(reg, i)).contains(&i)
    })
}
fn succs(reg: &Reg, id: u32) -> Vec<u32> {
    match reg.get(id) {
        None | Some(Def::Prim(_) | Def::Bits(..)) => vec![],
        Some(Def::Compact(i) | Def::Seq(i) | Def::Arr(_, i)) => vec![*i],
        Some(Def::Tup(is)) => is.clone(),
        Some(Def::Comp(fs)) => fs.iter().map(|f| f.id).collect(),
        Some(Def::Var(vs)) => vs.iter().flat_map(|v| v.fields.iter().map(|f| f.id)).collect(),
    }
}
/// how deeply a type nests; None if it is recursive
fn rank(reg: &Reg, id: u32, depth: usize) -> Option<usize> {
    if depth > reg.defs.len() {
        return None;
    }
    let go = |mut ids: Box<dyn Iterator<Item = u32>>, one: usize| {
        ids.try_fold(0, |m, i| Some(m.max(rank(reg, i, depth + 1)?))).map(|m| m + one)
    };
    match reg.get(id) {
        None | Some(Def::Prim(_) | Def::Bits(..)) => Some(0),
        Some(Def::Compact(i)) => go(Box::new([*i].into_iter()), 0),
        Some(Def::Seq(i) | Def::Arr(_, i)) => go(Box::new([*i].into_iter()), 1),
        Some(Def::Tup(is)) => go(Box::new(is.clone().into_iter()), (is.len() != 1) as usize),
        Some(Def::Comp(fs)) => go(Box::new(fs.clone().into_iter().map(|f| f.id)), (fs.len() != 1) as usize),
        Some(Def::Var(vs)) => go(Box::new(vs.clone().into_iter().flat_map(|v| v.fields.into_iter().map(|f| f.id))), 1),
    }
}
