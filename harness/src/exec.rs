//! Executes one event (a call on the real library) and returns its outcome.
use crate::types::{fields_iter, flds_from_json, text, untext, Reg, CAPPED};
use crate::vals::{bytes, comp_to_json, from_json, to_json, V};
use scale_value::{Composite, Value};
use serde_json::{json, Map, Value as J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Counts live and peak heap bytes.
pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
pub fn mem_start() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn mem_peak(start: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(start)
}

pub struct Session {
    pub reg: Reg,
    pub out: Vec<u8>,
    pub inp: Vec<u8>,
    pub pos: usize,
    /// the text printed last
    pub text: String,
}

pub type Out = Map<String, J>;
pub fn outcome(j: J) -> Out {
    match j {
        J::Object(m) => m,
        _ => panic!("outcome must be an object"),
    }
}

/// the locations of an error; they can only be compared and shown
fn locations(e: &scale_encode::Error) -> J {
    use scale_encode::error::Location;
    let mut out = vec![];
    for l in e.context().path().locations() {
        let text = format!("{l:?}");
        let digits: String = text.chars().filter(|c| c.is_ascii_digit()).collect();
        if let Some(i) = digits.parse::<usize>().ok().filter(|i| *l == Location::idx(*i)) {
            out.push(json!({"k": "i", "i": i.min(1 << 30)}));
            continue;
        }
        // a path of one location shows its name as it is
        let mut one = scale_encode::error::Context::new();
        one.push(l.clone());
        let shown = one.path().to_string();
        if *l == Location::field(shown.clone()) {
            out.push(json!({"k": "f", "n": shown.chars().map(|c| c as u32).collect::<Vec<_>>()}));
        } else {
            out.push(json!({"k": "other", "n": shown.chars().map(|c| c as u32).collect::<Vec<_>>()}));
        }
    }
    J::Array(out)
}

impl Session {
    pub fn new(reg: Reg) -> Session {
        Session { reg, out: vec![], inp: vec![], pos: 0, text: String::new() }
    }

    /// Run the event; panics become the outcome {"r":"panic"}.
    pub fn step(&mut self, ev: &J) -> J {
        self.reg.calls.set(0);
        self.reg.faults.set(0);
        let f = &ev["fault"];
        *self.reg.fault.borrow_mut() = crate::types::Fault {
            gone: f["gone"].as_array().map_or(vec![], |g| g.iter().map(|i| i.as_u64().unwrap() as u32).collect()),
            err: f["err"] == true,
            from: f["from"].as_u64().unwrap_or(0),
            once: f["once"] == true,
        };
        self.reg.cap.set(ev["cap"].as_u64().unwrap_or(2_000_000));
        let r = catch_unwind(AssertUnwindSafe(|| self.call(ev)));
        match r {
            Ok(mut m) => {
                if f.is_object() {
                    m.insert("faults".into(), json!(self.reg.faults.get()));
                }
                J::Object(m)
            }
            Err(p) => {
                let capped = p.downcast_ref::<&str>().is_some_and(|s| *s == CAPPED);
                json!({"r": if capped { "capped" } else { "panic" }})
            }
        }
    }

    fn call(&mut self, ev: &J) -> Out {
        match ev["op"].as_str().expect("op") {
            "setbuf" => {
                self.out = bytes(&ev["b"]);
                outcome(json!({"r": "ok"}))
            }
            "load" => {
                self.inp = bytes(&ev["b"]);
                self.pos = 0;
                outcome(json!({"r": "ok"}))
            }
            "feed" => {
                self.inp = self.out.clone();
                self.pos = 0;
                outcome(json!({"r": "ok"}))
            }
            "enc" | "encf" => self.encode(ev),
            "long" => self.long(ev),
            "dec" | "decf" => self.decode(ev),
            "print" => {
                let o = crate::text_ops::print(ev);
                self.text = untext(&o["s"]);
                o
            }
            "parse" => crate::text_ops::parse(ev, &self.text),
            "hexf" => crate::text_ops::hexf(ev),
            "hexp" | "ss58p" => crate::text_ops::own(ev),
            _ => crate::ops::call(ev),
        }
    }

    fn encode(&mut self, ev: &J) -> Out {
        use scale_encode::{EncodeAsFields, EncodeAsType};
        let v: V = from_json(&ev["v"]);
        let how = ev["how"].as_str().unwrap_or("fn");
        let reg = &self.reg;
        let buf = &mut self.out;
        // on a panic the buffer is what the call left behind
        let r = if ev["op"] == "enc" {
            let ty = ev["ty"].as_u64().unwrap() as u32;
            match how {
                "fn" => scale_value::scale::encode_as_type(&v, ty, reg, buf),
                "unit" => v.remove_context().encode_as_type_to(ty, reg, buf),
                // a fresh buffer of its own
                _ => v.encode_as_type(ty, reg).map(|b| buf.extend(b)),
            }
        } else {
            let fs = flds_from_json(&ev["fs"]);
            let mut it = fields_iter(&fs);
            match (how, v.value) {
                ("comp", scale_value::ValueDef::Composite(c)) => c.encode_as_fields_to(&mut it, reg, buf),
                (_, value) => Value { value, context: v.context }.encode_as_fields_to(&mut it, reg, buf),
            }
        };
        let calls = self.reg.calls.get();
        match r {
            Ok(()) => outcome(json!({"r": "ok", "buf": self.out, "calls": calls})),
            Err(e) => outcome(json!({"r": "err", "buf": self.out, "calls": calls, "path": locations(&e)})),
        }
    }

    /// n copies of one element, encoded and decoded again
    fn long(&mut self, ev: &J) -> Out {
        use scale_value::{Primitive, ValueDef};
        let (ty, n, t) = (ev["ty"].as_u64().unwrap() as u32, ev["n"].as_u64().unwrap() as usize, ev["t"].as_u64().unwrap() as usize);
        let what = ev["what"].as_str().unwrap();
        let reg = &self.reg;
        reg.cap.set(u64::MAX);
        let mut elem: Option<V> = None;
        let value: ValueDef<u32> = match what {
            "str" => {
                let c = char::from_u32(ev["v"].as_u64().unwrap() as u32).unwrap();
                ValueDef::Primitive(Primitive::String(std::iter::repeat(c).take(n).collect()))
            }
            "bits" => {
                let b = ev["v"].as_bool().unwrap();
                ValueDef::BitSequence(std::iter::repeat(b).take(n).collect())
            }
            "named" => {
                let e: V = from_json(&ev["v"]);
                elem = Some(e.clone());
                ValueDef::Composite(Composite::Named((0..n).map(|i| (format!("f{i}"), e.clone())).collect()))
            }
            _ => {
                let e: V = from_json(&ev["v"]);
                elem = Some(e.clone());
                ValueDef::Composite(Composite::Unnamed(vec![e; n]))
            }
        };
        let v = Value { value, context: 0 };
        let mut buf = vec![];
        if scale_value::scale::encode_as_type(&v, ty, reg, &mut buf).is_err() {
            return outcome(json!({"r": "err", "cands": [], "dr": "err", "dn": 0, "same": false, "rem": 0,
                "tr": "err", "tn": 0, "tsame": false, "trem": 0}));
        }
        let mut cands = vec![];
        for h in [0, 1, 2, 4, 5] {
            if h <= buf.len() && (buf.len() - h) % t == 0 {
                let k = (buf.len() - h) / t;
                if k <= 64 && (k == 0 || buf[h..].chunks(k).all(|c| c == &buf[h..h + k])) {
                    cands.push(json!({"pre": &buf[..h], "unit": &buf[h..h + k]}));
                }
            }
        }
        let want = elem.map(|e| e.remove_context());
        let look = |d: &V| -> (usize, bool) {
            match (&d.value, &v.value) {
                (ValueDef::Composite(Composite::Unnamed(vs)), _) => {
                    let e = want.as_ref();
                    (vs.len(), e.is_some_and(|e| vs.iter().all(|x| x.clone().remove_context() == *e)))
                }
                (ValueDef::Primitive(Primitive::String(a)), ValueDef::Primitive(Primitive::String(b))) => (a.chars().count(), a == b),
                (ValueDef::BitSequence(a), ValueDef::BitSequence(b)) => (a.len(), a == b),
                _ => (0, false),
            }
        };
        let mut cur = &buf[..];
        let d = scale_value::scale::decode_as_type(&mut cur, ty, reg);
        let (dr, (dn, same), rem) = match &d {
            Ok(d) => ("ok", look(d), cur.len()),
            Err(_) => ("err", (0, false), 0),
        };
        let mut cur = &buf[..];
        let d = scale_value::scale::tracing::decode_as_type(&mut cur, ty, reg);
        let (tr, (tn, tsame), trem) = match &d {
            Ok(d) => ("ok", look(d), cur.len()),
            Err(_) => ("err", (0, false), 0),
        };
        outcome(json!({"r": "ok", "cands": cands, "dr": dr, "dn": dn, "same": same, "rem": rem,
            "tr": tr, "tn": tn, "tsame": tsame, "trem": trem}))
    }

    fn decode(&mut self, ev: &J) -> Out {
        use scale_decode::{DecodeAsFields, DecodeAsType};
        let how = ev["how"].as_str().unwrap_or("plain");
        let inp = std::mem::take(&mut self.inp);
        let mut cur = &inp[self.pos..];
        let reg = &self.reg;
        let m = mem_start();
        let r: Result<J, Option<(bool, String)>> = if ev["op"] == "dec" {
            let ty = ev["ty"].as_u64().unwrap() as u32;
            match how {
                "plain" => scale_value::scale::decode_as_type(&mut cur, ty, reg)
                    .map(|v| (mem_peak(m), to_json(&v)))
                    .map_err(|_| None),
                "trace" => scale_value::scale::tracing::decode_as_type(&mut cur, ty, reg)
                    .map(|v| (mem_peak(m), to_json(&v)))
                    .map_err(|e| {
                        let mut s = String::new();
                        let shown = std::fmt::Write::write_fmt(&mut s, format_args!("{e}")).is_ok();
                        Some((shown, s))
                    }),
                _ => Value::<()>::decode_as_type(&mut cur, ty, reg)
                    .map(|v| (mem_peak(m), to_json(&v)))
                    .map_err(|_| None),
            }
        } else {
            let fs = flds_from_json(&ev["fs"]);
            let mut it = fields_iter(&fs);
            match how {
                "plain" => scale_value::scale::decode_as_fields(&mut cur, &mut it, reg)
                    .map(|c| (mem_peak(m), J::Object(comp_to_json(&c))))
                    .map_err(|_| None),
                "value" => Value::<()>::decode_as_fields(&mut cur, &mut it, reg)
                    .map(|v| (mem_peak(m), J::Object(value_comp(&v))))
                    .map_err(|_| None),
                _ => Composite::<()>::decode_as_fields(&mut cur, &mut it, reg)
                    .map(|c| (mem_peak(m), J::Object(comp_to_json(&c))))
                    .map_err(|_| None),
            }
        }
        .map(|(k, v)| json!({"v": v, "mem": k.min(1 << 30)}));
        let peak = mem_peak(m).min(1 << 30);
        let rem = cur.len();
        if ev["keep"] != true {
            self.pos = inp.len() - rem;
        }
        self.inp = inp;
        match r {
            Ok(j) => outcome(json!({"r": "ok", "v": j["v"], "rem": rem, "mem": j["mem"]})),
            Err(None) => outcome(json!({"r": "err", "mem": peak})),
            Err(Some((b, t))) => outcome(json!({"r": "err", "mem": peak, "shown": b, "text": text(&t)})),
        }
    }
}

fn value_comp(v: &Value<()>) -> Map<String, J> {
    match &v.value {
        scale_value::ValueDef::Composite(c) => comp_to_json(c),
        _ => outcome(json!({"k": "notcomposite"})),
    }
}
