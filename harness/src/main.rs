//! rav: drives the real regalloc2 and records what it did.
//!   rav alloc --alg ion|fast --profiles a,b --from N --count N --emit N
//!             --max-bad N --secs N --out FILE
//!   rav one ALG PROFILE SEED [min]        show one case
use ravharness::gen::*;
use ravharness::record::*;
use ravharness::screen::*;
use ravharness::shrink;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn args() -> HashMap<String, String> {
    let a: Vec<String> = std::env::args().collect();
    let mut m = HashMap::new();
    let mut i = 2;
    while i + 1 < a.len() {
        if let Some(k) = a[i].strip_prefix("--") {
            m.insert(k.to_string(), a[i + 1].clone());
        }
        i += 2;
    }
    m
}

fn target(s: &str) -> Target {
    if s == "ion" {
        Target::Ion
    } else {
        Target::Fast
    }
}

fn case_id(alg: &str, prof: &str, seed: u64) -> String {
    format!("{alg}:{prof}:{seed}")
}

fn alloc_cmd() {
    let a = args();
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let alg = g("alg", "ion");
    let profs: Vec<String> = g("profiles", "mix").split(',').map(|s| s.to_string()).collect();
    let from: u64 = g("from", "0").parse().unwrap();
    let count: u64 = g("count", "1000").parse().unwrap();
    let emit: usize = g("emit", "100").parse().unwrap();
    let max_bad: usize = g("max-bad", "8").parse().unwrap();
    let max_weight: usize = g("max-insts", "120").parse().unwrap();
    let secs: u64 = g("secs", "30").parse().unwrap();
    let path = g("out", "/dev/stdout");
    std::panic::set_hook(Box::new(|_| {}));
    let t = target(&alg);
    // Watchdog: a case that does not come back is itself a record.
    let cur = Arc::new(AtomicU64::new(u64::MAX));
    let beat = Arc::new(AtomicU64::new(0));
    {
        let (cur, beat, alg, profs, path) =
            (cur.clone(), beat.clone(), alg.clone(), profs.clone(), path.clone());
        std::thread::spawn(move || {
            let mut last = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let b = beat.load(Ordering::Relaxed);
                if b != last.0 {
                    last = (b, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(20) {
                    let s = cur.load(Ordering::Relaxed);
                    if s == u64::MAX {
                        continue;
                    }
                    let p = &profs[(s % profs.len() as u64) as usize];
                    let c = gen_only(s, target(&alg), p);
                    let r = record(case_id(&alg, p, s), &c, &Outcome::Dead("hang"));
                    std::fs::write(&path, r.json(&c) + "\n").ok();
                    println!("HANG {}", r.id);
                    std::process::exit(0);
                }
            }
        });
    }
    let mut curf = std::fs::File::create(format!("{path}.cur")).unwrap();
    let start = Instant::now();
    let list = a.contains_key("list");
    let mut sink = Sink::new(emit, max_bad, max_weight, list);
    let mut n = 0u64;
    for s in from..from + count {
        if n % 64 == 0 && start.elapsed().as_secs() >= secs {
            break;
        }
        use std::os::unix::fs::FileExt;
        curf.write_at(&s.to_le_bytes(), 0).ok();
        let p = &profs[(s % profs.len() as u64) as usize];
        let c = gen_only(s, t, p);
        cur.store(s, Ordering::Relaxed);
        beat.fetch_add(1, Ordering::Relaxed);
        let o = run_case(&c);
        cur.store(u64::MAX, Ordering::Relaxed);
        let r = record(case_id(&alg, p, s), &c, &o);
        n += 1;
        sink.add(&c, &r);
    }
    sink.finish(&path);
}

/// What is kept of a run: everything suspicious (up to a number per kind), and
/// a spread over behaviours of kinds not seen before.
struct Sink {
    emit: usize,
    max_bad: usize,
    max_weight: usize,
    list: bool,
    n: u64,
    bad: BTreeMap<String, Vec<String>>,
    good: Vec<String>,
    seen: HashMap<u64, usize>,
    outs: BTreeMap<String, u64>,
    codes: BTreeMap<String, u64>,
    insts: u64,
    edits: u64,
}

impl Sink {
    fn new(emit: usize, max_bad: usize, max_weight: usize, list: bool) -> Sink {
        Sink {
            emit,
            max_bad,
            max_weight,
            list,
            n: 0,
            bad: Default::default(),
            good: vec![],
            seen: Default::default(),
            outs: Default::default(),
            codes: Default::default(),
            insts: 0,
            edits: 0,
        }
    }
    fn add(&mut self, c: &Case, r: &Rec) {
        self.n += 1;
        self.insts += r.insts.len() as u64;
        self.edits += r.edits.len() as u64;
        *self.outs.entry(r.out.clone()).or_default() += 1;
        let b = screen(r, c);
        if !b.is_empty() {
            for k in &b {
                *self.codes.entry(k.clone()).or_default() += 1;
            }
            let v = self.bad.entry(b[0].clone()).or_default();
            if v.len() < self.max_bad {
                if self.list {
                    println!("BAD {} {:?} {}", r.id, b, r.insts.len());
                }
                v.push(r.json(c));
            }
        } else if r.insts.len() <= self.max_weight {
            let k = features(r, c);
            let e = self.seen.entry(k).or_default();
            *e += 1;
            if (*e <= 2 || self.good.len() < self.emit / 4) && self.good.len() < self.emit * 8 {
                self.good.push(r.json(c));
            }
        }
    }
    fn finish(self, path: &str) {
        // a deterministic spread over the novel records
        let step = (self.good.len() / self.emit.max(1)).max(1);
        let pick: Vec<String> = self.good.into_iter().step_by(step).take(self.emit).collect();
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        let mut nbad = 0;
        for l in self.bad.values().flatten() {
            nbad += 1;
            writeln!(f, "{l}").unwrap();
        }
        for l in &pick {
            writeln!(f, "{l}").unwrap();
        }
        f.flush().unwrap();
        println!(
            "SUMMARY {{\"ran\":{},\"features\":{},\"emitted\":{},\"suspicious\":{nbad},\"insts\":{},\"edits\":{},\"outcomes\":{},\"screen\":{}}}",
            self.n,
            self.seen.len(),
            pick.len() + nbad,
            self.insts,
            self.edits,
            jmap(&self.outs),
            jmap(&self.codes)
        );
    }
}

/// A function written by spec/Programs.tla, in one of the machines it fits.
fn program(line: &str, alg: &str, idx: usize, variant: usize) -> (String, Case) {
    // P|REGS|VREGS|TEXT
    let w: Vec<&str> = line.split('|').collect();
    let n: usize = w[1].parse().unwrap();
    let id = format!("prog:{alg}:{variant}:{idx}");
    let regs: Vec<String> = (0..n).map(|r| format!("{r}i")).collect();
    let split = if variant == 2 { n / 2 } else { n };
    let mut t = format!("case {id} {alg}\npref {}\nnonpref {}\n", regs[..split].join(" "), regs[split..].join(" "));
    if variant != 1 {
        t += &format!("scratch {n}i\n");
    }
    t += &format!("pref 0f 1f\nnonpref\npref 0v 1v\nnonpref\nfss\nfunc 0 {} 1 1 1 0 0\n", w[2]);
    t += &w[3].replace(';', "\n");
    t += "end\n";
    ravharness::textio::load(&t).pop().unwrap()
}

/// rav prog IN ALG VARIANTS SEED SHARD SHARDS EMIT MAXBAD OUT [SKIP]: every
/// function of a file written by TLC.  VARIANTS is how many of the three
/// machines each function is allocated for (which, depends on SEED).
fn prog_cmd() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    let (alg, nvar, seed, shard, shards, path) = (a[3].clone(), n(4), n(5), n(6), n(7), a[10].clone());
    let skip = a.get(11).map_or(0, |s| s.parse::<usize>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let curf = std::fs::File::create(format!("{path}.cur")).unwrap();
    let mut sink = Sink::new(n(8), n(9), 1000, false);
    let text = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
    use std::io::BufRead;
    use std::os::unix::fs::FileExt;
    for (idx, line) in text.lines().enumerate() {
        let line = line.unwrap();
        if idx % shards != shard || idx < skip {
            continue;
        }
        for k in 0..nvar {
            let variant = (idx / shards + seed + k) % 3;
            let (id, c) = program(&line, &alg, idx, variant);
            curf.write_at(&((idx * 3 + variant) as u64).to_le_bytes(), 0).ok();
            let o = run_case(&c);
            let r = record(id, &c, &o);
            sink.add(&c, &r);
        }
    }
    sink.finish(&path);
}

/// rav progtext IN ALG CODE: the case behind a ".cur" file as text
fn progtext_cmd() {
    let a: Vec<String> = std::env::args().collect();
    let code: usize = a[4].parse().unwrap();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let (id, c) = program(text.lines().nth(code / 3).unwrap(), &a[3], code / 3, code % 3);
    print!("{}", ravharness::textio::dump(&id, &c));
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m
        .iter()
        .map(|(k, v)| format!("\"{}\":{}", k.replace(['"', '\\'], " "), v))
        .collect();
    format!("{{{}}}", v.join(","))
}

fn one() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = gen_only(a[4].parse().unwrap(), target(&a[2]), &a[3]);
    std::panic::set_hook(Box::new(|_| {}));
    let key = |c: &Case| {
        let o = run_case(c);
        let r = record("x".into(), c, &o);
        (screen(&r, c), r.msg.clone())
    };
    let k0 = key(&c);
    if a.len() > 5 {
        c = shrink::shrink(c, 100000, |x| {
            let k = key(x);
            k.0.first() == k0.0.first() && (k0.0.first().map(|s| s.as_str()) != Some("panic") || k.1 == k0.1)
        });
    }
    println!("{:?}\n{}", key(&c), shrink::show(&c));
    if let Outcome::Ok(o) = run_case(&c) {
        for i in 0..c.f.flat.len() {
            for (p, e) in &o.edits {
                if p.inst().index() == i && p.pos() == regalloc2::InstPosition::Before {
                    println!("      {:?} {:?}", p, e);
                }
            }
            println!("  {i}: {:?}", o.inst_allocs(regalloc2::Inst::new(i)));
            for (p, e) in &o.edits {
                if p.inst().index() == i && p.pos() == regalloc2::InstPosition::After {
                    println!("      {:?} {:?}", p, e);
                }
            }
        }
        println!("debug {:?}", o.debug_locations);
        println!("nslots {}", o.num_spillslots);
    }
}

/// rav file IN OUT: run every case of a text file.  A case that kills or
/// hangs the process is found by the driver, which passes its number as SKIP.
fn file_cmd() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let mut o = String::new();
    for (id, c) in ravharness::textio::load(&text) {
        std::fs::write(format!("{}.cur", a[3]), &id).ok();
        let dead = a.get(4).map_or(false, |d| *d == id);
        let out = if dead { Outcome::Dead("crash") } else { run_case(&c) };
        let r = record(id, &c, &out);
        o += &r.json(&c);
        o.push('\n');
    }
    std::fs::write(&a[3], o).unwrap();
}

/// rav text ALG PROFILE SEED ID [min]: the case as text
fn text_cmd() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = gen_only(a[4].parse().unwrap(), target(&a[2]), &a[3]);
    std::panic::set_hook(Box::new(|_| {}));
    if a.len() > 6 {
        let key = |c: &Case| {
            let o = run_case(c);
            let r = record("x".into(), c, &o);
            (screen(&r, c), r.msg.clone())
        };
        let k0 = key(&c);
        c = shrink::shrink(c, 100000, |x| {
            let k = key(x);
            k.0.first() == k0.0.first() && (k0.0.first().map(|s| s.as_str()) != Some("panic") || k.1 == k0.1)
        });
    }
    print!("{}", ravharness::textio::dump(&a[5], &c));
}

/// rav checker SEED SHARD SHARDS SECS WANT OUT: the library's own checker on
/// outputs that are right or have been made wrong.
fn checker_cmd() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, shard, shards, secs, want, path) = (n(2), n(3), n(4), n(5), n(6) as usize, a[7].clone());
    std::panic::set_hook(Box::new(|_| {}));
    let profs = ["small", "mix", "constraint", "params", "straight"];
    let start = Instant::now();
    let (mut bad, mut good): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut seen: HashMap<u64, usize> = HashMap::new();
    let mut ran = 0u64;
    let mut k = shard;
    while start.elapsed().as_secs() < secs && bad.len() < 24 {
        let s = seed * 1_000_000_007 + k;
        k += shards;
        let t = if s % 3 == 0 { Target::Fast } else { Target::Ion };
        let p = profs[(s % 5) as usize];
        let c = gen_only(s, t, p);
        let mut rng = ravharness::rng::Rng::new(s ^ 0xC0FFEE);
        let Some(r) = ravharness::ck::case(format!("ck:{s}"), &mut rng, &c) else { continue };
        ran += 1;
        let w = ravharness::ck::wrong(&r, &c);
        if (w && r.ck != "err") || (!w && r.ck != "ok") {
            bad.push(r.json(&c));
        } else if r.insts.len() <= 60 && good.len() < want * 8 {
            let e = seen.entry(features(&r, &c) * 2 + w as u64).or_default();
            *e += 1;
            if *e <= 2 {
                good.push(r.json(&c));
            }
        }
    }
    let step = (good.len() / want.max(1)).max(1);
    let nbad = bad.len();
    bad.extend(good.into_iter().step_by(step).take(want));
    std::fs::write(&path, bad.join("\n") + "\n").unwrap();
    println!(
        "SUMMARY {{\"ran\":{ran},\"emitted\":{},\"suspicious\":{{\"ck\":{nbad}}}}}",
        bad.len()
    );
}

fn rec_cmd() {
    // rav rec ALG PROFILE SEED OUT
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[4].parse().unwrap();
    let c = gen_only(seed, target(&a[2]), &a[3]);
    std::panic::set_hook(Box::new(|_| {}));
    let o = run_case(&c);
    let r = record(case_id(&a[2], &a[3], seed), &c, &o);
    std::fs::write(&a[5], r.json(&c) + "\n").unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "alloc" => alloc_cmd(),
        "one" => one(),
        "checker" => checker_cmd(),
        "rec" => rec_cmd(),
        "dead" => {
            // rav dead ALG PROFILE SEED KIND OUT
            let c = gen_only(a[4].parse().unwrap(), target(&a[2]), &a[3]);
            let kind = if a[5] == "hang" { "hang" } else { "crash" };
            let r = record(case_id(&a[2], &a[3], a[4].parse().unwrap()), &c, &Outcome::Dead(kind));
            std::fs::write(&a[6], r.json(&c) + "\n").unwrap();
        }
        "file" => file_cmd(),
        "text" => text_cmd(),
        "prog" => prog_cmd(),
        "progtext" => progtext_cmd(),
        x => panic!("unknown command {x}"),
    }
}
