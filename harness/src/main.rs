//! svh: runs the real scale-value library for the specification.
//!   svh record PROP SEED N OUT CUR      drive the library, write sessions with outcomes
//!   svh exec IN OUT CUR                  run sessions, write them with outcomes
mod drive;
mod drive_data;
mod drive_text;
mod exec;
mod fixed;
mod gen;
mod ops;
mod rng;
mod sd;
mod text_ops;
mod types;
mod vals;

use serde_json::Value as J;
use std::io::{BufRead, BufReader, BufWriter, Write};

#[global_allocator]
static ALLOC: exec::Counting = exec::Counting;

/// Keeps the session up to the call in progress, so that an abort can be attributed.
pub struct Cur(Option<std::fs::File>, u64);
impl Cur {
    fn new(p: Option<&String>) -> Cur {
        Cur(p.map(|p| std::fs::File::create(p).unwrap()), 0)
    }
    fn put(&mut self, j: &J) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &mut self.0 {
            let s = format!("{j}\n");
            f.write_all_at(s.as_bytes(), self.1).unwrap();
            self.1 += s.len() as u64;
        }
    }
    pub fn start(&mut self, reg: &J) {
        if let Some(f) = &mut self.0 {
            f.set_len(0).unwrap();
        }
        self.1 = 0;
        self.put(reg);
    }
    pub fn set(&mut self, ev: &J) {
        self.put(ev)
    }
}

fn parse(s: &str) -> J {
    use serde::Deserialize;
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    J::deserialize(&mut d).unwrap()
}
fn lines(p: &str) -> impl Iterator<Item = J> {
    BufReader::new(std::fs::File::open(p).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.is_empty())
        .map(|l| parse(&l))
}

fn main() {
    if std::env::var("SVH_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    // deep values recurse deeply: the library is judged on a roomy but finite stack
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(a)).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

/// Sessions this slow mean that calls do far more work than they should: leave it at those
/// seen so far, which will be found out.
fn late(t0: std::time::Instant, done: usize) -> bool {
    let most = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { 900 } else { 60 };
    let late = t0.elapsed().as_secs() > most;
    if late {
        println!("late: stopped after {done} sessions");
    }
    late
}

fn run(a: Vec<String>) -> i32 {
    let t0 = std::time::Instant::now();
    match a[1].as_str() {
        "record" => {
            let (prop, seed, n) = (&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut w = BufWriter::new(std::fs::File::create(&a[5]).unwrap());
            let mut d = drive::Driver::new(prop, seed, Cur::new(a.get(6)));
            for i in 0..n {
                if late(t0, i) {
                    break;
                }
                let s = d.session();
                writeln!(w, "{s}").unwrap();
            }
            w.flush().unwrap();
        }
        "exec" => {
            let mut w = BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            let mut cur = Cur::new(a.get(4));
            for (i, mut s) in lines(&a[2]).enumerate() {
                if late(t0, i) {
                    break;
                }
                let mut x = exec::Session::new(types::Reg::from_json(&s["reg"]));
                cur.start(&s["reg"]);
                for ev in s["evs"].as_array_mut().unwrap() {
                    cur.set(ev);
                    let out = x.step(ev);
                    ev["out"] = out;
                }
                writeln!(w, "{s}").unwrap();
            }
            w.flush().unwrap();
        }
        x => {
            eprintln!("unknown command {x}");
            return 2;
        }
    }
    0
}
