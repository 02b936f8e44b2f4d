//! Histories of allocator runs: fresh and reused contexts, after failures,
//! in other threads and processes, with and without logging and validation.
use crate::emit::Emit;
use ravharness::gen::{self, Case, Target};
use ravharness::json::J;
use ravharness::rng::Rng;
use regalloc2::*;
use std::collections::HashMap;
use std::hash::Hasher;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

const PROFS: [&str; 8] = ["small", "mix", "constraint", "params", "straight", "slots", "debug", "big"];

/// A function to allocate.
#[derive(Clone)]
pub struct Subject {
    pub case: Case,
    /// May be given to both allocators and needs no validation.
    pub fast_too: bool,
    pub broken: bool,
}

/// The subject of a number.
pub fn subject(s: u64) -> Subject {
    let mut rng = Rng::new(s ^ 0x5E55_1011);
    let fast_too = rng.pct(60);
    let np = if rng.pct(15) { 8 } else { 7 };
    let p = PROFS[rng.below(np)];
    let mut case = gen::gen(s, if fast_too { Target::Fast } else { Target::Ion }, p);
    let mut broken = false;
    if rng.pct(15) {
        broken = breaking(&mut rng, &mut case);
    }
    Subject { case, fast_too, broken }
}

/// Make the function one that the validator refuses.
pub fn breaking(rng: &mut Rng, c: &mut Case) -> bool {
    for _ in 0..20 {
        let b = rng.below(c.f.blocks.len());
        let i = rng.below(c.f.blocks[b].insts.len());
        let ops = &mut c.f.blocks[b].insts[i].ops;
        if ops.is_empty() {
            continue;
        }
        let k = rng.below(ops.len());
        let o = ops[k];
        if o.as_fixed_nonallocatable().is_some() || o.kind() != OperandKind::Use {
            continue;
        }
        // A use of something that is never defined.
        ops[k] = Operand::new(VReg::new(c.f.num_vregs, o.class()), o.constraint(), o.kind(), o.pos());
        c.f.num_vregs += 1;
        return true;
    }
    false
}

/// The whole result as text.
fn text(o: &Output) -> String {
    format!(
        "{} {:?} {:?} {:?} {:?} {:?}",
        o.num_spillslots, o.edits, o.allocs, o.inst_alloc_offsets, o.debug_locations, o.stats
    )
}

pub fn digest(s: &str) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(s.as_bytes());
    format!("{:016x}", h.finish())
}

pub fn tell(r: Result<&Output, &RegAllocError>) -> String {
    match r {
        Ok(o) => format!("ok {}", digest(&text(o))),
        Err(e) => format!("err {e:?}"),
    }
}

fn options(alg: usize, o: usize) -> RegallocOptions {
    RegallocOptions {
        verbose_log: o & 1 != 0,
        validate_ssa: o & 2 != 0,
        algorithm: if alg == 1 { Algorithm::Ion } else { Algorithm::Fastalloc },
    }
}

pub fn fresh(f: &impl Function, env: &MachineEnv, alg: usize, o: usize) -> String {
    match catch_unwind(AssertUnwindSafe(|| run(f, env, &options(alg, o)))) {
        Ok(r) => tell(r.as_ref()),
        Err(_) => "panic".into(),
    }
}

fn reuse(s: &Subject, alg: usize, o: usize, ctx: &mut Ctx) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        tell(run_with_ctx(&s.case.f, &s.case.env, &options(alg, o), ctx).as_deref())
    }));
    r.unwrap_or_else(|_| {
        *ctx = Ctx::default();
        "panic".into()
    })
}

struct Op {
    k: &'static str,
    x: usize,
    c: usize,
    a: usize,
    o: usize,
    r: String,
}

fn emit(em: &mut Emit, id: String, subj: &[u64], ops: Vec<Op>) {
    // A quick look.
    let mut memo: HashMap<(usize, usize), &str> = HashMap::new();
    let mut ctx: HashMap<usize, &str> = HashMap::new();
    let mut bad = None;
    for p in &ops {
        match p.k {
            "new" => {
                ctx.remove(&p.x);
            }
            "look" | "take" => {
                if let Some(w) = ctx.get(&p.x) {
                    if *w != p.r {
                        bad = Some(p.k);
                    }
                }
                if p.k == "take" {
                    ctx.remove(&p.x);
                }
            }
            _ => {
                if *memo.entry((p.c, p.a)).or_insert(&p.r) != p.r {
                    bad = Some(p.k);
                }
                if p.x > 0 {
                    if p.r.starts_with("ok") {
                        ctx.insert(p.x, &p.r);
                    } else {
                        ctx.remove(&p.x);
                    }
                }
            }
        }
    }
    em.add(bad, false, || {
        let mut j = J::new();
        j.ob();
        j.ks("id", &id);
        j.ki("nc", subj.len() as i64);
        j.k("subj");
        j.ab();
        for s in subj {
            j.s(&s.to_string());
        }
        j.ae();
        j.k("ops");
        j.ab();
        for p in &ops {
            j.ob();
            j.ks("k", p.k);
            j.ki("x", p.x as i64);
            j.ki("c", p.c as i64);
            j.ki("a", p.a as i64);
            j.ki("o", p.o as i64);
            j.ks("r", &p.r);
            j.oe();
        }
        j.ae();
        j.oe();
        j.0
    });
}

fn history(em: &mut Emit, sd: u64) {
    let mut rng = Rng::new(sd);
    let nc = rng.range(1, 6);
    let nums: Vec<u64> = (0..nc).map(|i| sd.wrapping_mul(31).wrapping_add(i as u64)).collect();
    let subj: Vec<Subject> = nums.iter().map(|&n| subject(n)).collect();
    let nx = rng.range(1, 3);
    let mut ctx: Vec<Ctx> = (0..nx).map(|_| Ctx::default()).collect();
    let mut ops: Vec<Op> = vec![];
    let n = rng.range(3, 24);
    let opt = |rng: &mut Rng, s: &Subject| if s.broken { 2 + rng.below(2) } else { rng.below(4) };
    while ops.len() < n {
        let c = rng.below(nc);
        let s = &subj[c];
        let a = if s.fast_too && rng.pct(30) { 2 } else { 1 };
        let o = opt(&mut rng, s);
        let x = rng.below(nx);
        match rng.below(20) {
            0..=10 => {
                let r = reuse(s, a, o, &mut ctx[x]);
                ops.push(Op { k: "ctx", x: x + 1, c: c + 1, a, o, r });
            }
            11..=13 => ops.push(Op { k: "run", x: 0, c: c + 1, a, o, r: fresh(&s.case.f, &s.case.env, a, o) }),
            14 | 15 => {
                let r = tell(Ok(&ctx[x].output));
                ops.push(Op { k: "look", x: x + 1, c: 0, a: 0, o: 0, r });
            }
            16 => {
                let t = std::mem::take(&mut ctx[x].output);
                ops.push(Op { k: "take", x: x + 1, c: 0, a: 0, o: 0, r: tell(Ok(&t)) });
            }
            17 => {
                // The context moves to another thread and comes back.
                let mut y = std::mem::take(&mut ctx[x]);
                let s2 = s.clone();
                let (y, r) = std::thread::spawn(move || {
                    let r = reuse(&s2, a, o, &mut y);
                    (y, r)
                })
                .join()
                .unwrap();
                ctx[x] = y;
                ops.push(Op { k: "thread", x: x + 1, c: c + 1, a, o, r });
            }
            18 => {
                // Several threads at once.
                let hs: Vec<_> = (0..rng.range(2, 4))
                    .map(|_| {
                        let c = rng.below(nc);
                        let s = subj[c].clone();
                        let a = if s.fast_too && rng.pct(30) { 2 } else { 1 };
                        let o = opt(&mut rng, &s);
                        (c, a, o, std::thread::spawn(move || fresh(&s.case.f, &s.case.env, a, o)))
                    })
                    .collect();
                for (c, a, o, h) in hs {
                    ops.push(Op { k: "together", x: 0, c: c + 1, a, o, r: h.join().unwrap() });
                }
            }
            _ => {
                ctx[x] = Ctx::default();
                ops.push(Op { k: "new", x: x + 1, c: 0, a: 0, o: 0, r: String::new() });
            }
        }
    }
    // In the end, what a new run says.
    for c in 0..nc {
        let s = &subj[c];
        let o = opt(&mut rng, s);
        ops.push(Op { k: "run", x: 0, c: c + 1, a: 1, o, r: fresh(&s.case.f, &s.case.env, 1, o) });
    }
    emit(em, format!("session:{sd}"), &nums, ops);
}

/// In a process of its own: the results for the subjects named on stdin.
pub fn answer() {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    for l in t.lines() {
        let w: Vec<u64> = l.split(' ').map(|x| x.parse().unwrap()).collect();
        let s = subject(w[0]);
        println!("{}", fresh(&s.case.f, &s.case.env, w[1] as usize, w[2] as usize));
    }
}

fn processes(em: &mut Emit, sd: u64) {
    let mut rng = Rng::new(sd);
    let mut groups = vec![];
    let mut ask = String::new();
    for g in 0..40u64 {
        let num = sd.wrapping_mul(77).wrapping_add(g);
        let s = subject(num);
        let a = if s.fast_too && rng.pct(40) { 2 } else { 1 };
        let o = if s.broken { 2 } else { rng.below(4) };
        ask += &format!("{num} {a} {o}\n");
        groups.push((num, a, o, s));
    }
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("answer")
        .env("RAVIO_PAD", "x".repeat(rng.below(3000)))
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    ch.stdin.take().unwrap().write_all(ask.as_bytes()).unwrap();
    let out = String::from_utf8_lossy(&ch.wait_with_output().unwrap().stdout).to_string();
    let got: Vec<&str> = out.lines().collect();
    let mut ctx = Ctx::default();
    for (i, (num, a, o, s)) in groups.into_iter().enumerate() {
        let ops = vec![
            Op { k: "process", x: 0, c: 1, a, o, r: got.get(i).unwrap_or(&"died").to_string() },
            Op { k: "ctx", x: 1, c: 1, a, o, r: reuse(&s, a, o, &mut ctx) },
            Op { k: "run", x: 0, c: 1, a, o, r: fresh(&s.case.f, &s.case.env, a, o) },
        ];
        emit(em, format!("process:{num}"), &[num], ops);
    }
}

pub fn run_all(seed: u64, shard: usize, _shards: usize, secs: u64, want: usize, path: &str) {
    let t0 = std::time::Instant::now();
    let mut em = Emit::new(want, 8);
    let base = seed.wrapping_mul(1_000_003).wrapping_add((shard as u64) << 40);
    let mut i = 0u64;
    while t0.elapsed().as_secs() < secs {
        if i % 20 == 0 {
            processes(&mut em, base + i + 1);
        }
        for _ in 0..16 {
            i += 1;
            history(&mut em, base + i);
        }
    }
    em.finish(path);
}
