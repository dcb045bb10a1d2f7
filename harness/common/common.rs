// Shared by the harness crates: case recording, seeded generator, result file.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
#[allow(dead_code)]
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    pub fn f64_any(&mut self) -> f64 {
        match self.below(8) {
            0 => f64::from_bits(self.next()),
            1 => self.below(1000) as f64,
            2 => (self.below(2000) as f64 - 1000.0) / 7.0,
            3 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, 2.0]),
            4 => 2f64.powi(self.below(200) as i32 - 100),
            5 => -(2f64.powi(self.below(200) as i32 - 100)),
            _ => (self.next() >> 11) as f64 / (1u64 << 53) as f64 * 10f64.powi(self.below(12) as i32 - 6),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.usize(i + 1); v.swap(i, j); }
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub seed: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String)>,
    pub rule: String,
    quiet: u64,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

#[allow(dead_code)]
impl Ctx {
    pub fn n(&self, quick: u64) -> u64 { if self.thorough { quick * 20 } else { quick } }
    /// run one case; `desc` is the whole input; Err(observed) or a panic is a failure
    pub fn case(&mut self, desc: String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        if nontrivial { self.distinct.insert(hash(&desc)); }
        let r = catch_unwind(AssertUnwindSafe(f));
        let bad = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        };
        let d: String = desc.chars().take(1500).collect();
        if let Some(e) = bad {
            if self.failures.len() < 200 { self.failures.push((d, e.chars().take(1500).collect())); } else { self.quiet += 1; }
        } else if nontrivial && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 97 == 0)) {
            self.samples.push(d.chars().take(400).collect());
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); } }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main_with(table: &[(&str, fn(&mut Ctx))]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: {} PROPERTY quick|thorough SEED OUT", a[0]); std::process::exit(2); }
    std::panic::set_hook(Box::new(|_| {}));
    let seed: u64 = a[3].parse().unwrap_or(1);
    let mut c = Ctx { rng: Rng(seed.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(11)), thorough: a[2] == "thorough", seed, evals: 0,
        distinct: HashSet::new(), samples: vec![], failures: vec![], rule: String::new(), quiet: 0 };
    let mut found = false;
    for (id, f) in table {
        if *id == a[1] {
            found = true;
            if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                c.failures.push(("outside a case".into(), format!("panicked: {m}")));
            }
        }
    }
    if !found { eprintln!("no such property {}", a[1]); std::process::exit(2); }
    let fs: Vec<String> = c.failures.iter().map(|(d, e)| format!("{{\"case\":{},\"detail\":{}}}", js(d), js(e))).collect();
    let ss: Vec<String> = c.samples.iter().map(|s| js(s)).collect();
    let out = format!("{{\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}\n",
        c.evals, c.distinct.len(), js(&c.rule), ss.join(","), fs.join(","));
    std::fs::write(&a[4], out).expect("write result");
}
