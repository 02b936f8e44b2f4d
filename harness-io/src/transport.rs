//! Functions that are packed, serialized and unpacked again, and the
//! command-line tool that reads them.
use crate::emit::Emit;
use crate::session::{breaking, digest, fresh};
use ravharness::func::Func;
use ravharness::gen::{self, Case, Target};
use ravharness::json::J;
use ravharness::record::{opts, panic_msg};
use ravharness::rng::Rng;
use regalloc2::serialize::SerializableFunction;
use regalloc2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const CL: [RegClass; 3] = [RegClass::Int, RegClass::Float, RegClass::Vector];
type Strs = Vec<String>;

fn vr(v: &VReg) -> String {
    format!("{}:{}", v.vreg(), v.class() as u8)
}
fn st<T: ToString>(it: impl IntoIterator<Item = T>) -> Strs {
    it.into_iter().map(|x| x.to_string()).collect()
}
fn set(s: PRegSet) -> Strs {
    let mut v: Vec<usize> = s.into_iter().map(|p| p.index()).collect();
    v.sort();
    st(v)
}

/// A question, its two arguments, and the answer.
type Query = (&'static str, usize, usize, Strs);

/// Ask a function everything.
fn ask(f: &impl Function, nb: usize, ni: usize, succs: &[usize]) -> Vec<Query> {
    let mut q: Vec<Query> = vec![];
    q.push(("num_insts", 0, 0, st([f.num_insts()])));
    q.push(("num_blocks", 0, 0, st([f.num_blocks()])));
    q.push(("entry", 0, 0, st([f.entry_block().index()])));
    q.push(("num_vregs", 0, 0, st([f.num_vregs()])));
    q.push(("named_last", 0, 0, st([f.multi_spillslot_named_by_last_slot()])));
    q.push(("multi_defs", 0, 0, st([f.allow_multiple_vreg_defs()])));
    for c in CL {
        q.push(("slot_size", c as usize, 0, st([f.spillslot_size(c)])));
    }
    q.push(("debug", 0, 0, dbg(f.debug_value_labels())));
    for b in 0..nb {
        let bl = Block::new(b);
        let r = f.block_insns(bl);
        q.push(("insns", b, 0, st([r.first().index(), r.first().index() + r.len()])));
        q.push(("succs", b, 0, st(f.block_succs(bl).iter().map(|x| x.index()))));
        q.push(("preds", b, 0, st(f.block_preds(bl).iter().map(|x| x.index()))));
        q.push(("params", b, 0, f.block_params(bl).iter().map(vr).collect()));
        for s in 0..succs[b] {
            q.push(("args", b, s, f.branch_blockparams(bl, r.last(), s).iter().map(vr).collect()));
        }
    }
    for i in 0..ni {
        let ix = Inst::new(i);
        q.push(("kind", i, 0, st([kind(f, ix)])));
        q.push(("operands", i, 0, st(f.inst_operands(ix).iter().map(|o| o.bits()))));
        q.push(("clobbers", i, 0, set(f.inst_clobbers(ix))));
    }
    q
}

fn kind(f: &impl Function, ix: Inst) -> &'static str {
    match (f.is_ret(ix), f.is_branch(ix)) {
        (true, false) => "ret",
        (false, true) => "branch",
        (false, false) => "op",
        _ => "both",
    }
}

fn dbg(d: &[(VReg, Inst, Inst, u32)]) -> Strs {
    d.iter().map(|(v, a, b, l)| format!("{} {} {} {}", vr(v), a.index(), b.index(), l)).collect()
}

fn ask_env(e: &MachineEnv) -> Vec<Query> {
    let mut q: Vec<Query> = vec![];
    for c in 0..3 {
        q.push(("preferred", c, 0, set(e.preferred_regs_by_class[c])));
        q.push(("non_preferred", c, 0, set(e.non_preferred_regs_by_class[c])));
        q.push(("scratch", c, 0, st(e.scratch_by_class[c].iter().map(|p| p.index()))));
    }
    q.push(("fixed_stack", 0, 0, st(e.fixed_stack_slots.iter().map(|p| p.index()))));
    q
}

fn js(j: &mut J, k: &str, v: &[String]) {
    j.k(k);
    strs(j, v);
}
fn strs(j: &mut J, v: &[String]) {
    j.ab();
    for x in v {
        j.s(x);
    }
    j.ae();
}
fn many(j: &mut J, k: &str, v: &[Strs]) {
    j.k(k);
    j.ab();
    for x in v {
        strs(j, x);
    }
    j.ae();
}

/// The function as it was built, without going through its accessors.
fn data(j: &mut J, f: &Func, e: &MachineEnv) {
    let s = |x: usize| vec![x.to_string()];
    let t = |x: bool| vec![x.to_string()];
    j.k("f");
    j.ob();
    js(j, "ni", &s(f.blocks.iter().map(|b| b.insts.len()).sum()));
    js(j, "nb", &s(f.blocks.len()));
    js(j, "entry", &s(f.entry));
    js(j, "nv", &s(f.num_vregs));
    js(j, "last", &t(f.named_last));
    js(j, "multi", &t(f.multi_defs));
    many(j, "ss", &f.slot_size.iter().map(|&x| s(x)).collect::<Vec<_>>());
    js(j, "dbg", &dbg(&f.debug));
    j.k("blocks");
    j.ab();
    let mut at = 0;
    for b in &f.blocks {
        j.ob();
        js(j, "r", &st([at, at + b.insts.len()]));
        j.ki("f", at as i64);
        j.ki("l", (at + b.insts.len()) as i64);
        at += b.insts.len();
        js(j, "s", &st(b.succs.iter().map(|x| x.index())));
        js(j, "q", &st(b.preds.iter().map(|x| x.index())));
        js(j, "p", &b.params.iter().map(vr).collect::<Vec<_>>());
        many(j, "a", &b.args.iter().map(|a| a.iter().map(vr).collect()).collect::<Vec<_>>());
        j.oe();
    }
    j.ae();
    j.k("insts");
    j.ab();
    for i in f.blocks.iter().flat_map(|b| &b.insts) {
        j.ob();
        js(j, "k", &[if i.ret { "ret" } else if i.branch { "branch" } else { "op" }.to_string()]);
        js(j, "o", &st(i.ops.iter().map(|o| o.bits())));
        js(j, "c", &set(i.clob));
        j.oe();
    }
    j.ae();
    many(j, "pref", &e.preferred_regs_by_class.iter().map(|&x| set(x)).collect::<Vec<_>>());
    many(j, "nonp", &e.non_preferred_regs_by_class.iter().map(|&x| set(x)).collect::<Vec<_>>());
    many(j, "scr", &e.scratch_by_class.iter().map(|x| st(x.iter().map(|p| p.index()))).collect::<Vec<_>>());
    js(j, "fss", &st(e.fixed_stack_slots.iter().map(|p| p.index())));
    j.oe();
}

/// What the tool printed, as lists of words.
fn parse(t: &str) -> Vec<Strs> {
    let mut v: Vec<Strs> = vec![];
    let Some(at) = t.find("Register allocation result:") else { return v };
    let nums = |s: &str| -> Strs {
        s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    };
    for l in t[at..].lines().skip(1) {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("block") {
            let (a, b) = r.split_once("preds").unwrap_or((r, ""));
            let mut w = vec!["block".to_string()];
            w.extend(nums(a));
            w.push("|".into());
            w.extend(nums(b));
            v.push(w);
        } else if let Some(r) = l.strip_prefix("inst") {
            let (n, r) = r.split_once(':').unwrap_or((r, ""));
            let r = r.trim_start();
            let (k, r) = r.split_once(' ').unwrap_or((r, ""));
            let mut w = vec!["inst".to_string(), n.to_string(), k.to_string()];
            let mut r = r;
            while let Some(p) = r.find("=> ") {
                r = &r[p + 3..];
                let e = r.find(',').unwrap_or(r.len());
                w.push(r[..e].trim().to_string());
            }
            v.push(w);
        } else if let Some(r) = l.strip_prefix("edit: move ") {
            let (a, b) = r.split_once("<-").unwrap_or((r, ""));
            v.push(vec!["move".into(), a.trim().into(), b.trim().into()]);
        }
    }
    v
}

fn lines(c: &Case, o: &Output) -> Vec<Strs> {
    let f = &c.f;
    let mut v: Vec<Strs> = vec![];
    let mut e = 0;
    let mut i = 0;
    for (b, bl) in f.blocks.iter().enumerate() {
        let mut w: Strs = vec!["block".into(), b.to_string()];
        w.extend(st(bl.succs.iter().map(|x| x.index())));
        w.push("|".into());
        w.extend(st(bl.preds.iter().map(|x| x.index())));
        v.push(w);
        for d in &bl.insts {
            let moves = |pt: usize, e: &mut usize, v: &mut Vec<Strs>| {
                while *e < o.edits.len() && point(&o.edits[*e].0) == pt {
                    let Edit::Move { from, to } = &o.edits[*e].1;
                    v.push(vec!["move".into(), to.to_string(), from.to_string()]);
                    *e += 1;
                }
            };
            moves(2 * i, &mut e, &mut v);
            let mut w: Strs = vec!["inst".into(), i.to_string()];
            w.push(if d.ret { "ret" } else if d.branch { "branch" } else { "op" }.into());
            w.extend(o.inst_allocs(Inst::new(i)).iter().map(|a| a.to_string()));
            v.push(w);
            moves(2 * i + 1, &mut e, &mut v);
            i += 1;
        }
    }
    v
}

fn point(p: &ProgPoint) -> usize {
    p.inst().index() * 2 + (p.pos() == InstPosition::After) as usize
}

fn back<'a, T: formats::Both>(x: &T, bin: bool) -> T {
    x.trip(bin)
}

/// Serialization in both formats.
mod formats {
    use regalloc2::serialize::SerializableFunction;
    use regalloc2::*;
    pub trait Both {
        fn trip(&self, bin: bool) -> Self;
    }
    macro_rules! both {
        ($t:ty) => {
            impl Both for $t {
                fn trip(&self, bin: bool) -> Self {
                    if bin {
                        bincode::deserialize(&bincode::serialize(self).unwrap()).unwrap()
                    } else {
                        serde_json::from_str(&serde_json::to_string(self).unwrap()).unwrap()
                    }
                }
            }
        };
    }
    both!(SerializableFunction);
    both!(Output);
    both!(RegAllocError);
}

struct Tool {
    alg: usize,
    rc: i64,
    printed: Vec<Strs>,
}

fn tool(path: &std::path::Path, alg: usize) -> Option<Tool> {
    let exe = std::env::var("RAVIO_TOOL").ok()?;
    let o = std::process::Command::new(exe)
        .arg("-v")
        .arg(path)
        .arg(if alg == 1 { "ion" } else { "fastalloc" })
        .env_remove("RUST_LOG")
        .output()
        .ok()?;
    Some(Tool {
        alg,
        rc: if o.status.success() { 0 } else { 1 },
        printed: parse(&String::from_utf8_lossy(&o.stdout)),
    })
}

fn case(em: &mut Emit, sd: u64, dir: &str) {
    let mut rng = Rng::new(sd);
    let fast = rng.pct(50);
    let p = *rng.pick(&["small", "small", "mix", "constraint", "params", "debug", "straight"]);
    let mut c = gen::gen(sd, if fast { Target::Fast } else { Target::Ion }, p);
    if rng.pct(20) {
        c.f.multi_defs = true;
    }
    let broken = rng.pct(12) && breaking(&mut rng, &mut c);
    let (nb, ni) = (c.f.blocks.len(), c.f.flat.len());
    let succs: Vec<usize> = c.f.blocks.iter().map(|b| b.succs.len()).collect();
    let algs: &[usize] = if fast { &[1, 2] } else { &[1] };

    let mut asked: Vec<(&'static str, Vec<Query>)> = vec![];
    let mut runs: Vec<(&'static str, usize, String)> = vec![];
    let mut trips: Vec<(String, String)> = vec![];
    let mut tools: Vec<Tool> = vec![];
    let mut outs: Vec<(usize, Option<Output>)> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let s = SerializableFunction::new(&c.f, c.env.clone());
        let j = back(&s, false);
        let b = back(&s, true);
        let jb = back(&j, true);
        let n2 = SerializableFunction::new(&b, b.machine_env().clone());
        for (n, x) in [("new", &s), ("json", &j), ("binary", &b), ("both", &jb), ("again", &n2)] {
            let mut q = ask(x, nb, ni, &succs);
            q.extend(ask_env(x.machine_env()));
            asked.push((n, q));
        }
        for &a in algs {
            runs.push(("original", a, fresh(&c.f, &c.env, a, 2)));
            for (n, x) in [("new", &s), ("json", &j), ("binary", &b), ("again", &n2)] {
                runs.push((n, a, fresh(x, x.machine_env(), a, 2)));
            }
            let t = if a == 1 { Target::Ion } else { Target::Fast };
            match run(&c.f, &c.env, &opts(t, true)) {
                Ok(o) => {
                    for bin in [false, true] {
                        let t = |o: &Output| digest(&format!("{o:?}"));
                        trips.push((t(&o), t(&back(&o, bin))));
                    }
                    outs.push((a, Some(o)));
                }
                Err(e) => {
                    for bin in [false, true] {
                        trips.push((format!("{e:?}"), format!("{:?}", back(&e, bin))));
                    }
                    outs.push((a, None));
                }
            }
        }
        let path = std::path::Path::new(dir).join("fn.bin");
        std::fs::write(&path, bincode::serialize(&s).unwrap()).unwrap();
        for &a in algs {
            tools.extend(tool(&path, a));
        }
    }));
    let msg = r.err().map(panic_msg);

    // A quick look.
    let mut want = ask(&c.f, nb, ni, &succs);
    want.extend(ask_env(&c.env));
    let mut bad = None;
    if msg.is_some() {
        bad = Some("panic");
    }
    if asked.iter().any(|a| a.1 != want) {
        bad = Some("answer");
    }
    for r in &runs {
        if runs.iter().any(|s| s.1 == r.1 && s.2 != r.2) {
            bad = Some("run");
        }
    }
    if trips.iter().any(|t| t.0 != t.1) {
        bad = Some("trip");
    }
    for t in &tools {
        let o = outs.iter().find(|o| o.0 == t.alg).unwrap();
        let exp = o.1.as_ref().map(|o| lines(&c, o)).unwrap_or_default();
        if (t.rc == 0) != o.1.is_some() || t.printed != exp {
            bad = Some("tool");
        }
    }
    if bad.is_none() && ni > 40 {
        em.ran += 1;
        return;
    }
    em.add(bad, false, || {
        let mut j = J::new();
        j.ob();
        j.ks("id", &format!("transport:{sd}"));
        j.ks("out", if msg.is_some() { "panic" } else { "ok" });
        j.ks("msg", msg.as_deref().unwrap_or(""));
        j.kb("broken", broken);
        data(&mut j, &c.f, &c.env);
        j.k("ask");
        j.ab();
        for (n, q) in &asked {
            for q in q {
                j.ob();
                j.ks("w", n);
                j.ks("q", q.0);
                j.ki("a", q.1 as i64);
                j.ki("b", q.2 as i64);
                js(&mut j, "r", &q.3);
                j.oe();
            }
        }
        j.ae();
        j.k("runs");
        j.ab();
        for (w, a, r) in &runs {
            j.ob();
            j.ks("w", w);
            j.ki("a", *a as i64);
            j.ks("r", r);
            j.oe();
        }
        j.ae();
        j.k("trips");
        j.ab();
        for (a, b) in &trips {
            strs(&mut j, &[a.clone(), b.clone()]);
        }
        j.ae();
        j.k("tools");
        j.ab();
        for t in &tools {
            let o = outs.iter().find(|o| o.0 == t.alg).unwrap();
            j.ob();
            j.ki("a", t.alg as i64);
            j.ki("rc", t.rc);
            j.kb("ok", o.1.is_some());
            let o = o.1.clone().unwrap_or_default();
            let al: Vec<Strs> = (0..if o.inst_alloc_offsets.is_empty() { 0 } else { ni })
                .map(|i| st(o.inst_allocs(Inst::new(i)).iter()))
                .collect();
            many(&mut j, "ia", &al);
            j.k("ed");
            j.ab();
            for (p, Edit::Move { from, to }) in &o.edits {
                j.ob();
                j.ki("p", point(p) as i64);
                js(&mut j, "m", &[to.to_string(), from.to_string()]);
                j.oe();
            }
            j.ae();
            many(&mut j, "pr", &t.printed);
            j.oe();
        }
        j.ae();
        j.oe();
        j.0
    });
}

pub fn run_all(seed: u64, shard: usize, _shards: usize, secs: u64, want: usize, path: &str) {
    let t0 = std::time::Instant::now();
    let mut em = Emit::new(want, 8);
    let dir = format!("{path}.dir");
    std::fs::create_dir_all(&dir).unwrap();
    let base = seed.wrapping_mul(1_000_003).wrapping_add((shard as u64) << 40);
    let mut i = 0u64;
    while t0.elapsed().as_secs() < secs {
        i += 1;
        case(&mut em, base + i, &dir);
    }
    em.finish(path);
}
