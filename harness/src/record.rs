//! Turns one allocator run into a trace record for the TLA+ machine, plus a
//! fast screen that is only used to choose which records TLC looks at.
use crate::gen::*;
use crate::json::J;
use regalloc2::*;
use std::collections::HashMap;

/// What the code under test did with the case.
pub enum Outcome {
    Ok(Output),
    Err(RegAllocError),
    Panic(String),
    /// The process hung or died; filled in by the driver.
    Dead(&'static str),
}

pub fn opts(target: Target, validate: bool) -> RegallocOptions {
    RegallocOptions {
        verbose_log: false,
        validate_ssa: validate,
        algorithm: match target {
            Target::Ion => Algorithm::Ion,
            Target::Fast => Algorithm::Fastalloc,
        },
    }
}

pub fn run_case(c: &Case) -> Outcome {
    let o = opts(c.knobs.target, true);
    let far = (c.knobs.stretch != (1, 0)).then(|| c.f.stretched(c.knobs.stretch));
    let f = far.as_ref().unwrap_or(&c.f);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(f, &c.env, &o)));
    match r {
        Ok(Ok(o)) => Outcome::Ok(o),
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => Outcome::Panic(panic_msg(p)),
    }
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
        .chars()
        .take(160)
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Loc {
    /// class, hardware encoding
    Reg(u8, u8),
    /// slot index, size
    Slot(u32, u8),
    None,
}

#[derive(Clone, Debug)]
pub struct ROp {
    pub v: usize, // 1-based; 0 = fixed non-allocatable
    pub def: bool,
    pub late: bool,
    pub c: &'static str,
    pub x: (u8, usize), // constraint argument (class, value)
    pub a: usize,
}

#[derive(Clone, Debug, Default)]
pub struct RInst {
    pub o: Vec<ROp>,
    pub clob: Vec<(u8, u8)>,
    pub e: [usize; 3], // 1-based edit offsets
}

#[derive(Clone, Debug, Default)]
pub struct RBlock {
    pub f: usize,
    pub l: usize,
    pub s: Vec<usize>,
    pub p: Vec<usize>,
    pub a: Vec<Vec<usize>>,
    pub lv: Vec<usize>,
    pub ll: Vec<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub id: String,
    pub alg: &'static str,
    pub out: String,
    pub msg: String,
    pub entry: usize,
    pub vc: Vec<u8>, // class per vreg
    pub locs: Vec<Loc>,
    pub blocks: Vec<RBlock>,
    pub insts: Vec<RInst>,
    pub edits: Vec<(usize, usize, usize)>, // point, from, to
    pub dl: Vec<(u32, usize, usize, usize)>,
    pub dr: Vec<(usize, usize, usize, u32)>,
    pub nslots: usize,
    /// The most operands an instruction has.
    pub mo: usize,
    /// Verdict of the library's checker, if asked.
    pub ck: &'static str,
}

struct LocTab {
    v: Vec<Loc>,
    m: HashMap<Loc, usize>,
}
impl LocTab {
    fn get(&mut self, l: Loc) -> usize {
        if l == Loc::None {
            return 0;
        }
        if let Some(&i) = self.m.get(&l) {
            return i;
        }
        self.v.push(l);
        self.m.insert(l, self.v.len());
        self.v.len()
    }
    fn alloc(&mut self, a: Allocation, size: usize) -> usize {
        let l = if let Some(p) = a.as_reg() {
            Loc::Reg(p.class() as u8 + 1, p.hw_enc() as u8)
        } else if let Some(s) = a.as_stack() {
            Loc::Slot(s.index() as u32, size as u8)
        } else {
            Loc::None
        };
        self.get(l)
    }
}

pub fn record(id: String, c: &Case, out: &Outcome) -> Rec {
    let f = &c.f;
    let mut r = Rec {
        id,
        alg: match c.knobs.target {
            Target::Ion => "ion",
            Target::Fast => "fast",
        },
        entry: f.entry + 1,
        ..Default::default()
    };
    let none = Output::default();
    let o = match out {
        Outcome::Ok(o) => {
            r.out = "ok".into();
            o
        }
        Outcome::Err(e) => {
            r.out = "err".into();
            r.msg = match e {
                RegAllocError::TooManyLiveRegs => "TooManyLiveRegs".into(),
                e => format!("{:?}", e),
            };
            &none
        }
        Outcome::Panic(m) => {
            r.out = "panic".into();
            r.msg = m.clone();
            &none
        }
        Outcome::Dead(k) => {
            r.out = k.to_string();
            &none
        }
    };
    let ok = r.out == "ok";
    r.vc = vec![0; f.num_vregs];
    let mut lt = LocTab {
        v: vec![],
        m: HashMap::new(),
    };
    let mut note = |v: VReg, vc: &mut Vec<u8>| {
        vc[v.vreg()] = v.class() as u8 + 1;
        v.vreg() + 1
    };
    // The output must have the documented shape before it can be read at all.
    let mut shape_ok = true;
    if ok {
        shape_ok = o.inst_alloc_offsets.len() == f.flat.len();
        if shape_ok {
            for i in 0..f.flat.len() {
                let a = o.inst_alloc_offsets[i] as usize;
                let b = if i + 1 < f.flat.len() {
                    o.inst_alloc_offsets[i + 1] as usize
                } else {
                    o.allocs.len()
                };
                if a > b || b > o.allocs.len() || b - a != f.inst(i).ops.len() {
                    shape_ok = false;
                }
            }
        }
        if !shape_ok {
            r.out = "shape".into();
        }
    }
    for i in 0..f.flat.len() {
        let ins = f.inst(i);
        let mut ri = RInst::default();
        let base = if ok && shape_ok {
            o.inst_alloc_offsets[i] as usize
        } else {
            0
        };
        for (k, op) in ins.ops.iter().enumerate() {
            let size = f.slot_size[op.class() as usize];
            let a = if ok && shape_ok {
                lt.alloc(o.allocs[base + k], size)
            } else {
                0
            };
            let (cc, x) = match op.constraint() {
                OperandConstraint::Any => ("any", (0, 0)),
                OperandConstraint::Reg => ("reg", (0, 0)),
                OperandConstraint::Stack => ("stack", (0, 0)),
                OperandConstraint::FixedReg(p) => ("fixed", (p.class() as u8 + 1, p.hw_enc())),
                OperandConstraint::Reuse(j) => ("reuse", (0, j + 1)),
                OperandConstraint::Limit(n) => ("limit", (0, n)),
            };
            if let Some(p) = op.as_fixed_nonallocatable() {
                ri.o.push(ROp {
                    v: 0,
                    def: op.kind() == OperandKind::Def,
                    late: op.pos() == OperandPos::Late,
                    c: "nonalloc",
                    x: (p.class() as u8 + 1, p.hw_enc()),
                    a,
                });
                continue;
            }
            let v = note(op.vreg(), &mut r.vc);
            ri.o.push(ROp {
                v,
                def: op.kind() == OperandKind::Def,
                late: op.pos() == OperandPos::Late,
                c: cc,
                x,
                a,
            });
        }
        r.mo = r.mo.max(ri.o.len());
        if ri.o.len() > 200 {
            // Mentions that nothing tells apart are kept once.
            let mut seen = std::collections::HashSet::new();
            let reused: Vec<usize> = ri.o.iter().filter(|o| o.c == "reuse").map(|o| o.x.1).collect();
            let mut j = 0;
            ri.o.retain(|o| {
                j += 1;
                let first = seen.insert((o.v, o.def, o.late, o.c, o.x, o.a));
                first || o.def || reused.iter().any(|&r| r >= j)
            });
        }
        for p in ins.clob.into_iter() {
            ri.clob.push((p.class() as u8 + 1, p.hw_enc() as u8));
        }
        r.insts.push(ri);
    }
    for b in 0..f.blocks.len() {
        let bd = &f.blocks[b];
        let rb = RBlock {
            f: f.ranges[b].0 + 1,
            l: f.ranges[b].1,
            s: bd.succs.iter().map(|s| s.index() + 1).collect(),
            p: bd.params.iter().map(|&v| note(v, &mut r.vc)).collect(),
            a: bd
                .args
                .iter()
                .map(|a| a.iter().map(|&v| note(v, &mut r.vc)).collect())
                .collect(),
            ..Default::default()
        };
        r.blocks.push(rb);
    }
    for &(v, a, b, l) in &f.debug {
        let v = note(v, &mut r.vc);
        r.dr.push((v, a.index() + 1, b.index() + 1, l));
    }
    if ok && shape_ok {
        r.nslots = o.num_spillslots;
        for (p, e) in &o.edits {
            let Edit::Move { from, to } = e;
            let cl = from.as_reg().or(to.as_reg()).map(|p| p.class());
            let size = cl.map_or(1, |c| f.slot_size[c as usize]);
            let pt = p.inst().index() * 2 + if p.pos() == InstPosition::After { 1 } else { 0 };
            let fr = lt.alloc(*from, size);
            let to = lt.alloc(*to, size);
            r.edits.push((pt, fr, to));
        }
        // offsets
        let mut k = 0;
        let mut adv = |pt: usize| {
            while k < r.edits.len() && r.edits[k].0 < pt {
                k += 1;
            }
            k + 1
        };
        for i in 0..f.flat.len() {
            let a = adv(2 * i);
            let b = adv(2 * i + 1);
            let c = adv(2 * i + 2);
            r.insts[i].e = [a, b, c];
        }
        for (l, a, b, al) in &o.debug_locations {
            // class of the location: any vreg with this label
            let sz = f
                .debug
                .iter()
                .find(|d| d.3 == *l)
                .map_or(1, |d| f.slot_size[d.0.class() as usize]);
            let pt = |p: &ProgPoint| {
                p.inst().index() * 2 + if p.pos() == InstPosition::After { 1 } else { 0 }
            };
            let al = lt.alloc(*al, sz);
            r.dl.push((*l, pt(a), pt(b), al));
        }
        // fixed registers named by constraints are only compared by value
        r.locs = lt.v;
        live(&mut r);
    }
    r
}

/// Liveness of vregs and of locations at block entry; used by the machine to
/// forget facts that cannot matter any more.
fn live(r: &mut Rec) {
    let nb = r.blocks.len();
    let nv = r.vc.len() + 1;
    let nl = r.locs.len() + 1;
    let mut lv = vec![vec![false; nv]; nb];
    let mut ll = vec![vec![false; nl]; nb];
    let regloc: HashMap<Loc, usize> = r.locs.iter().enumerate().map(|(i, &l)| (l, i + 1)).collect();
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..nb).rev() {
            let bd = &r.blocks[b];
            let mut v = vec![false; nv];
            let mut l = vec![false; nl];
            for (k, &s) in bd.s.iter().enumerate() {
                for x in 1..nv {
                    if lv[s - 1][x] && !r.blocks[s - 1].p.contains(&x) {
                        v[x] = true;
                    }
                }
                for (j, p) in r.blocks[s - 1].p.iter().enumerate() {
                    if lv[s - 1][*p] {
                        if let Some(&a) = bd.a.get(k).and_then(|a| a.get(j)) {
                            v[a] = true;
                        }
                    }
                }
                for x in 1..nl {
                    l[x] |= ll[s - 1][x];
                }
            }
            for i in (bd.f - 1..bd.l).rev() {
                let ins = &r.insts[i];
                let dbg = |pt: usize, l: &mut Vec<bool>, v: &mut Vec<bool>| {
                    for &(lab, a, e, al) in &r.dl {
                        if a <= pt && pt < e {
                            l[al] = true;
                            for &(dv, da, de, dlab) in &r.dr {
                                if r.alg == "ion" && dlab == lab && 2 * (da - 1) <= pt && pt < 2 * (de - 1) {
                                    v[dv] = true;
                                }
                            }
                        }
                    }
                };
                if !r.dl.is_empty() {
                    dbg(2 * i + 1, &mut l, &mut v);
                }
                for k in (ins.e[1]..ins.e[2]).rev() {
                    let (_, f, t) = r.edits[k - 1];
                    l[t] = false;
                    l[f] = true;
                }
                for o in ins.o.iter().filter(|o| o.def && o.v > 0) {
                    l[o.a] = false;
                    v[o.v] = false;
                }
                for c in &ins.clob {
                    if let Some(&x) = regloc.get(&Loc::Reg(c.0, c.1)) {
                        l[x] = false;
                    }
                }
                for o in ins.o.iter().filter(|o| !o.def && o.v > 0) {
                    l[o.a] = true;
                    v[o.v] = true;
                }
                if !r.dl.is_empty() {
                    dbg(2 * i, &mut l, &mut v);
                }
                for k in (ins.e[0]..ins.e[1]).rev() {
                    let (_, f, t) = r.edits[k - 1];
                    l[t] = false;
                    l[f] = true;
                }
            }
            if v != lv[b] || l != ll[b] {
                lv[b] = v;
                ll[b] = l;
                changed = true;
            }
        }
    }
    for b in 0..nb {
        r.blocks[b].lv = (1..nv).filter(|&x| lv[b][x]).collect();
        r.blocks[b].ll = (1..nl).filter(|&x| ll[b][x]).collect();
    }
}

pub fn env_json(j: &mut J, env: &MachineEnv) {
    j.k("env");
    j.ob();
    let mut a: Vec<Vec<i64>> = vec![];
    for ci in 0..3 {
        let mut s = env.preferred_regs_by_class[ci];
        s.union_from(env.non_preferred_regs_by_class[ci]);
        a.push(s.into_iter().map(|p| p.hw_enc() as i64).collect());
    }
    j.k("a");
    j.ab();
    for x in a {
        j.arr(x);
    }
    j.ae();
    j.k("s");
    j.ab();
    for ci in 0..3 {
        j.arr(env.scratch_by_class[ci].iter().map(|p| p.hw_enc() as i64));
    }
    j.ae();
    j.k("f");
    j.ab();
    for ci in 0..3 {
        j.arr(
            env.fixed_stack_slots
                .iter()
                .filter(|p| p.class() as usize == ci)
                .map(|p| p.hw_enc() as i64),
        );
    }
    j.ae();
    j.oe();
}

impl Rec {
    pub fn json(&self, c: &Case) -> String {
        let mut j = J::new();
        j.ob();
        j.ks("id", &self.id);
        j.ks("alg", self.alg);
        // Known-finding cases are judged by the letter of the documentation.
        j.kb("strict", self.id.starts_with("kf-"));
        j.ks("out", &self.out);
        j.ks("msg", &self.msg);
        j.ks("ck", self.ck);
        j.ki("entry", self.entry as i64);
        env_json(&mut j, &c.env);
        j.karr("ss", c.f.slot_size.iter().map(|&x| x as i64));
        j.kb("last", c.f.named_last);
        j.ki("ns", self.nslots as i64);
        j.ki("mo", self.mo as i64);
        j.karr("vc", self.vc.iter().map(|&x| x as i64));
        j.k("locs");
        j.ab();
        for l in &self.locs {
            j.ob();
            match *l {
                Loc::Reg(c, n) => {
                    j.ks("k", "r");
                    j.ki("c", c as i64);
                    j.ki("n", n as i64);
                    j.ki("w", 0);
                }
                Loc::Slot(n, w) => {
                    j.ks("k", "s");
                    j.ki("c", 0);
                    j.ki("n", n as i64);
                    j.ki("w", w as i64);
                }
                Loc::None => {}
            }
            j.oe();
        }
        j.ae();
        j.k("blocks");
        j.ab();
        for b in &self.blocks {
            j.ob();
            j.ki("f", b.f as i64);
            j.ki("l", b.l as i64);
            let it = |v: &Vec<usize>| v.iter().map(|&x| x as i64).collect::<Vec<_>>();
            j.karr("s", it(&b.s));
            j.karr("p", it(&b.p));
            j.k("a");
            j.ab();
            for a in &b.a {
                j.arr(it(a));
            }
            j.ae();
            j.karr("lv", it(&b.lv));
            j.karr("ll", it(&b.ll));
            j.oe();
        }
        j.ae();
        j.k("insts");
        j.ab();
        for i in &self.insts {
            j.ob();
            j.k("o");
            j.ab();
            for o in &i.o {
                j.ob();
                j.ki("v", o.v as i64);
                j.ks("k", if o.def { "d" } else { "u" });
                j.ks("p", if o.late { "l" } else { "e" });
                j.ks("c", o.c);
                j.ki("xc", o.x.0 as i64);
                j.ki("x", o.x.1 as i64);
                j.ki("a", o.a as i64);
                j.oe();
            }
            j.ae();
            j.k("cl");
            j.ab();
            for c in &i.clob {
                j.arr([c.0 as i64, c.1 as i64]);
            }
            j.ae();
            j.karr("e", i.e.iter().map(|&x| x as i64));
            j.oe();
        }
        j.ae();
        j.k("edits");
        j.ab();
        for e in &self.edits {
            j.arr([e.0 as i64, e.1 as i64, e.2 as i64]);
        }
        j.ae();
        j.k("dl");
        j.ab();
        for e in &self.dl {
            j.arr([e.0 as i64, e.1 as i64, e.2 as i64, e.3 as i64]);
        }
        j.ae();
        j.k("dr");
        j.ab();
        for e in &self.dr {
            j.arr([e.0 as i64, e.1 as i64, e.2 as i64, e.3 as i64]);
        }
        j.ae();
        j.oe();
        j.0
    }
}
