//! Choosing which records the model checker looks at: everything a quick
//! look finds suspicious, and a spread over the rest.
use std::collections::BTreeMap;
use std::io::Write;

pub struct Emit {
    pub ran: u64,
    pub max_bad: usize,
    pub want: usize,
    bad: BTreeMap<String, Vec<String>>,
    nbad: BTreeMap<String, u64>,
    good: Vec<String>,
    all: Vec<String>,
    stride: u64,
}

impl Emit {
    pub fn new(want: usize, max_bad: usize) -> Self {
        Emit { ran: 0, max_bad, want, bad: BTreeMap::new(), nbad: BTreeMap::new(), good: vec![], all: vec![], stride: 1 }
    }
    /// `keep`: always look at this record.  The record is built only if needed.
    pub fn add(&mut self, bad: Option<&str>, keep: bool, rec: impl FnOnce() -> String) {
        self.ran += 1;
        if let Some(b) = bad {
            *self.nbad.entry(b.into()).or_default() += 1;
            let v = self.bad.entry(b.into()).or_default();
            if v.len() < self.max_bad {
                v.push(rec());
            }
        } else if keep {
            self.all.push(rec());
        } else if self.ran % self.stride == 0 {
            self.good.push(rec());
            if self.good.len() >= self.want * 2 {
                let mut i = 0;
                self.good.retain(|_| {
                    i += 1;
                    i % 2 == 0
                });
                self.stride *= 2;
            }
        }
    }
    pub fn finish(self, path: &str) {
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        let mut n = 0;
        for l in self.bad.values().flatten().chain(&self.all).chain(&self.good) {
            writeln!(f, "{l}").unwrap();
            n += 1;
        }
        f.flush().unwrap();
        let b: Vec<String> = self.nbad.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
        println!("SUMMARY {{\"ran\":{},\"emitted\":{n},\"suspicious\":{{{}}}}}", self.ran, b.join(","));
    }
}
