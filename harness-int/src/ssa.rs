//! Which functions the validator accepts.  Valid functions and functions
//! with a few things changed; the verdicts of the validator and of whole runs.
use crate::emit::Emit;
use ravharness::func::*;
use ravharness::gen::{self, Target};
use ravharness::json::J;
use ravharness::record::{opts, panic_msg};
use ravharness::rng::Rng;
use regalloc2::verif::*;
use regalloc2::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// kind, then what it names (1-based; 0: nothing)
type Verdict = (String, i64, i64);

fn tell(r: std::thread::Result<Result<(), RegAllocError>>) -> (Verdict, String) {
    let i = |x: Inst| if x.is_valid() { x.index() as i64 + 1 } else { 0 };
    let b = |x: Block| x.index() as i64 + 1;
    let n = |k: &str, x, y| ((k.to_string(), x, y), String::new());
    match r {
        Ok(Ok(())) => n("ok", 0, 0),
        Ok(Err(e)) => match e {
            RegAllocError::CritEdge(x, y) => n("crit", b(x), b(y)),
            RegAllocError::SSA(v, x) => n("ssa", v.vreg() as i64 + 1, i(x)),
            RegAllocError::BB(x) => n("bb", b(x), 0),
            RegAllocError::Branch(x) => n("branch", i(x), 0),
            RegAllocError::EntryLivein => n("livein", 0, 0),
            RegAllocError::DisallowedBranchArg(x) => n("brarg", i(x), 0),
            RegAllocError::TooManyLiveRegs => n("ok", 0, 0),
            RegAllocError::TooManyOperands => n("toomanyops", 0, 0),
        },
        Err(p) => (("panic".into(), 0, 0), panic_msg(p)),
    }
}

fn set_op(o: &mut Operand, v: VReg) {
    *o = Operand::new(v, o.constraint(), o.kind(), o.pos());
}

/// Change something.
fn mutate(rng: &mut Rng, f: &mut Func) {
    let nb = f.blocks.len();
    let real = |o: &Operand| o.as_fixed_nonallocatable().is_none();
    let mut all: Vec<VReg> = vec![];
    for b in &f.blocks {
        all.extend(b.params.iter().copied());
        for i in &b.insts {
            all.extend(i.ops.iter().filter(|o| real(o)).map(|o| o.vreg()));
        }
    }
    all.sort();
    all.dedup();
    let any = |rng: &mut Rng, c: RegClass, nv: usize| {
        if rng.pct(6) {
            return VReg::new(nv + rng.below(3), c);
        }
        let v: Vec<VReg> = all.iter().copied().filter(|v| v.class() == c).collect();
        if v.is_empty() { VReg::new(nv, c) } else { *rng.pick(&v) }
    };
    let b = rng.below(nb);
    let ni = f.blocks[b].insts.len();
    let i = rng.below(ni);
    let nv = f.num_vregs;
    match rng.below(16) {
        // an operand names another vreg
        0 | 1 | 2 => {
            let n = f.blocks[b].insts[i].ops.len();
            if n > 0 {
                let k = rng.below(n);
                let o = f.blocks[b].insts[i].ops[k];
                if real(&o) {
                    let v = any(rng, o.class(), nv);
                    set_op(&mut f.blocks[b].insts[i].ops[k], v);
                }
            }
        }
        // a branch argument names another vreg
        3 | 4 | 5 => {
            let t: Vec<(usize, usize)> = (0..f.blocks[b].args.len())
                .flat_map(|k| (0..f.blocks[b].args[k].len()).map(move |j| (k, j)))
                .collect();
            if !t.is_empty() {
                let (k, j) = *rng.pick(&t);
                let c = f.blocks[b].args[k][j].class();
                f.blocks[b].args[k][j] = any(rng, c, nv);
            }
        }
        // too many or too few branch arguments
        6 => {
            let n = f.blocks[b].args.len();
            if n > 0 && f.blocks[b].insts[ni - 1].branch {
                let k = rng.below(n);
                if rng.pct(50) || f.blocks[b].args[k].is_empty() {
                    let v = any(rng, RegClass::Int, nv);
                    f.blocks[b].args[k].push(v);
                } else {
                    f.blocks[b].args[k].pop();
                }
            }
        }
        // a block gets a parameter (its predecessors follow, or not)
        7 => {
            let v = if rng.pct(50) {
                f.num_vregs += 1;
                VReg::new(nv, RegClass::Int)
            } else {
                any(rng, RegClass::Int, nv)
            };
            f.blocks[b].params.push(v);
            if rng.pct(80) {
                for p in 0..nb {
                    for k in 0..f.blocks[p].succs.len() {
                        if f.blocks[p].succs[k].index() == b {
                            let a = any(rng, RegClass::Int, nv);
                            f.blocks[p].args[k].push(a);
                        }
                    }
                }
            }
        }
        // a block gets another successor
        8 => {
            if f.blocks[b].insts[ni - 1].branch {
                let s = if rng.pct(6) { nb } else { rng.below(nb) };
                let a = if s < nb {
                    (0..f.blocks[s].params.len()).map(|j| any(rng, f.blocks[s].params[j].class(), nv)).collect()
                } else {
                    vec![]
                };
                let bd = &mut f.blocks[b];
                if rng.pct(50) && !bd.succs.is_empty() {
                    let k = rng.below(bd.succs.len());
                    bd.succs[k] = Block::new(s);
                    bd.args[k] = a;
                } else {
                    bd.succs.push(Block::new(s));
                    bd.args.push(a);
                }
            }
        }
        // a terminator in the middle, or none at the end
        9 => {
            let x = &mut f.blocks[b].insts[i];
            if i + 1 == ni && (x.branch || x.ret) {
                x.branch = false;
                x.ret = false;
            } else if rng.pct(50) {
                x.ret = true;
            } else {
                x.branch = true;
            }
        }
        // two instructions change places (not the terminator)
        10 => {
            if ni > 2 {
                let k = rng.below(ni - 2);
                f.blocks[b].insts.swap(k, k + 1);
            }
        }
        // a terminator gets an operand
        11 => {
            let v = any(rng, RegClass::Int, nv);
            let k = if rng.pct(70) { OperandKind::Use } else { OperandKind::Def };
            let p = if k == OperandKind::Use { OperandPos::Early } else { OperandPos::Late };
            f.blocks[b].insts[ni - 1].ops.push(Operand::new(v, OperandConstraint::Any, k, p));
        }
        // an operand goes away
        12 => {
            let n = f.blocks[b].insts[i].ops.len();
            if n > 0 {
                let k = rng.below(n);
                let ops = &mut f.blocks[b].insts[i].ops;
                ops.remove(k);
                ops.retain(|o| !matches!(o.constraint(), OperandConstraint::Reuse(_)));
            }
        }
        // an instruction moves to another block
        13 => {
            if ni > 1 {
                let k = rng.below(ni - 1);
                let x = f.blocks[b].insts.remove(k);
                f.blocks[rng.below(nb)].insts.insert(0, x);
            }
        }
        // another entry
        14 => f.entry = rng.below(nb),
        // an unreachable block
        _ => {
            let s = rng.below(nb);
            let a = (0..f.blocks[s].params.len()).map(|j| any(rng, f.blocks[s].params[j].class(), nv)).collect();
            let mut bl = BlockD { succs: vec![Block::new(s)], args: vec![a], ..Default::default() };
            if rng.pct(50) {
                let v = any(rng, RegClass::Int, nv);
                let kind = if rng.pct(50) { OperandKind::Use } else { OperandKind::Def };
                let pos = if kind == OperandKind::Use { OperandPos::Early } else { OperandPos::Late };
                bl.insts.push(InstD { ops: vec![Operand::new(v, OperandConstraint::Any, kind, pos)], ..Default::default() });
            }
            bl.insts.push(InstD { branch: true, ..Default::default() });
            f.blocks.push(bl);
        }
    }
}

/// Does a vreg have two classes?
fn two_classes(f: &Func) -> bool {
    let mut c: Vec<Option<RegClass>> = vec![None; f.num_vregs + 8];
    let mut bad = false;
    let mut see = |v: VReg| {
        let x = c[v.vreg()].get_or_insert(v.class());
        bad |= *x != v.class();
    };
    for b in &f.blocks {
        b.params.iter().for_each(|v| see(*v));
        b.args.iter().flatten().for_each(|v| see(*v));
        for i in &b.insts {
            i.ops.iter().filter(|o| o.as_fixed_nonallocatable().is_none()).for_each(|o| see(o.vreg()));
        }
    }
    bad
}

/// Predecessor lists that survive edges to blocks that do not exist.
fn seal(f: &mut Func) {
    for b in &mut f.blocks {
        b.preds.clear();
    }
    for b in 0..f.blocks.len() {
        for s in f.blocks[b].succs.clone() {
            if s.index() < f.blocks.len() {
                f.blocks[s.index()].preds.push(Block::new(b));
            }
        }
    }
    f.seal_ranges();
}

/// A quick look: every rule the function breaks.
fn broken(f: &Func) -> (BTreeSet<(&'static str, i64, i64)>, Vec<bool>) {
    let nb = f.blocks.len();
    let mut t = BTreeSet::new();
    let mut reach = vec![false; nb];
    let mut work = vec![f.entry];
    reach[f.entry] = true;
    while let Some(b) = work.pop() {
        for s in &f.blocks[b].succs {
            if s.index() >= nb {
                t.insert(("bb", s.index() as i64 + 1, 0));
            } else if !reach[s.index()] {
                reach[s.index()] = true;
                work.push(s.index());
            }
        }
    }
    let mut sites: Vec<Vec<i64>> = vec![vec![]; f.num_vregs + 8];
    for b in 0..nb {
        for p in &f.blocks[b].params {
            sites[p.vreg()].push(0);
        }
        for (k, i) in f.blocks[b].insts.iter().enumerate() {
            let n = (f.ranges[b].0 + k) as i64 + 1;
            for o in &i.ops {
                if o.kind() != OperandKind::Def {
                    continue;
                }
                if !(f.multi_defs && sites[o.vreg().vreg()].contains(&n)) {
                    sites[o.vreg().vreg()].push(n);
                }
            }
            let last = k + 1 == f.blocks[b].insts.len();
            if last != (i.branch || i.ret) {
                t.insert(("bb", b as i64 + 1, 0));
            }
        }
        let l = f.blocks[b].insts.last().unwrap();
        let li = f.ranges[b].1 as i64;
        let many = |s: usize| f.blocks[s].preds.len() + (s == f.entry) as usize > 1;
        for (k, s) in f.blocks[b].succs.iter().enumerate() {
            let s = s.index();
            if s >= nb {
                continue;
            }
            if l.branch && f.blocks[b].args[k].len() != f.blocks[s].params.len() {
                t.insert(("branch", li, 0));
            }
            if many(s) {
                if f.blocks[b].succs.len() > 1 {
                    t.insert(("crit", b as i64 + 1, s as i64 + 1));
                }
                if !l.ops.is_empty() {
                    t.insert(("brarg", li, 0));
                }
            }
        }
    }
    if !f.blocks[f.entry].params.is_empty() {
        t.insert(("bb", f.entry as i64 + 1, 0));
    }
    for (v, s) in sites.iter().enumerate() {
        if s.len() > 1 || v >= f.num_vregs {
            for &i in s {
                t.insert(("ssa", v as i64 + 1, i));
            }
        }
    }
    // definedness on all paths
    let nv = f.num_vregs + 8;
    let mut inn: Vec<Option<Vec<bool>>> = vec![None; nb];
    inn[f.entry] = Some(vec![false; nv]);
    let mut work = vec![f.entry];
    let mut ill: Vec<BTreeSet<(&'static str, i64, i64)>> = vec![BTreeSet::new(); nb];
    while let Some(b) = work.pop() {
        let mut d = inn[b].clone().unwrap();
        ill[b].clear();
        for p in &f.blocks[b].params {
            d[p.vreg()] = true;
        }
        for (k, i) in f.blocks[b].insts.iter().enumerate() {
            let n = (f.ranges[b].0 + k) as i64 + 1;
            for o in i.ops.iter().filter(|o| o.as_fixed_nonallocatable().is_none()) {
                if o.kind() == OperandKind::Use && (!d[o.vreg().vreg()] || o.vreg().vreg() >= f.num_vregs) {
                    ill[b].insert(("ssa", o.vreg().vreg() as i64 + 1, n));
                }
            }
            for o in i.ops.iter().filter(|o| o.kind() == OperandKind::Def) {
                d[o.vreg().vreg()] = true;
            }
        }
        let li = f.ranges[b].1 as i64;
        for (k, s) in f.blocks[b].succs.iter().enumerate() {
            if f.blocks[b].insts.last().unwrap().branch {
                for a in &f.blocks[b].args[k] {
                    if !d[a.vreg()] || a.vreg() >= f.num_vregs {
                        ill[b].insert(("ssa", a.vreg() as i64 + 1, li));
                    }
                }
            }
            let s = s.index();
            if s >= nb {
                continue;
            }
            let ch = match &mut inn[s] {
                None => {
                    inn[s] = Some(d.clone());
                    true
                }
                Some(o) => {
                    let mut ch = false;
                    for x in 0..nv {
                        if o[x] && !d[x] {
                            o[x] = false;
                            ch = true;
                        }
                    }
                    ch
                }
            };
            if ch && !work.contains(&s) {
                work.push(s);
            }
        }
    }
    for i in ill {
        t.extend(i);
    }
    (t, reach)
}

fn rec(id: &str, f: &Func, who: &str, v: &Verdict, msg: &str) -> String {
    let mut j = J::new();
    j.ob();
    j.ks("id", id);
    j.ks("who", who);
    j.ks("res", &v.0);
    j.ki("x", v.1);
    j.ki("y", v.2);
    j.ks("msg", msg);
    j.ki("entry", f.entry as i64 + 1);
    j.ki("nv", f.num_vregs as i64);
    j.kb("m", f.multi_defs);
    j.k("blocks");
    j.ab();
    for (b, bd) in f.blocks.iter().enumerate() {
        j.ob();
        j.ki("f", f.ranges[b].0 as i64 + 1);
        j.ki("l", f.ranges[b].1 as i64);
        j.karr("p", bd.params.iter().map(|v| v.vreg() as i64 + 1));
        j.karr("s", bd.succs.iter().map(|s| s.index() as i64 + 1));
        j.k("a");
        j.ab();
        for a in &bd.args {
            j.arr(a.iter().map(|v| v.vreg() as i64 + 1));
        }
        j.ae();
        j.oe();
    }
    j.ae();
    j.k("insts");
    j.ab();
    for k in 0..f.flat.len() {
        let i = f.inst(k);
        j.ob();
        j.ks("t", if i.ret { "ret" } else if i.branch { "br" } else { "op" });
        j.ki("n", i.ops.len() as i64);
        let of = |kind| {
            i.ops
                .iter()
                .filter(|o| o.kind() == kind && o.as_fixed_nonallocatable().is_none())
                .map(|o| o.vreg().vreg() as i64 + 1)
                .collect::<Vec<_>>()
        };
        j.karr("u", of(OperandKind::Use));
        j.karr("d", of(OperandKind::Def));
        j.oe();
    }
    j.ae();
    j.oe();
    j.0
}

fn case(em: &mut Emit, s: u64) {
    let mut rng = Rng::new(s);
    let prof = *rng.pick(&["small", "small", "params", "mix"]);
    let c = gen::gen(rng.next(), Target::Fast, prof);
    let mut f = c.f.clone();
    if f.blocks.len() > 9 || f.num_vregs > 60 {
        return;
    }
    f.debug.clear();
    let n = *rng.pick(&[0, 1, 1, 1, 1, 2, 2, 3]);
    for _ in 0..n {
        mutate(&mut rng, &mut f);
        f.seal_ranges();
    }
    if f.blocks.iter().any(|b| b.insts.is_empty()) || two_classes(&f) {
        return;
    }
    if rng.pct(25) {
        // an instruction defines a vreg again
        let b = rng.below(f.blocks.len());
        let i = rng.below(f.blocks[b].insts.len());
        let i = &mut f.blocks[b].insts[i];
        let d: Vec<Operand> = i.ops.iter().copied().filter(|o| o.kind() == OperandKind::Def).collect();
        if !d.is_empty() {
            let v = rng.pick(&d).vreg();
            i.ops.push(Operand::new(v, OperandConstraint::Any, OperandKind::Def, OperandPos::Late));
        }
        f.multi_defs = rng.pct(60);
    }
    let n = if f.multi_defs { n.max(1) } else { n };
    seal(&mut f);
    let (t, reach) = broken(&f);
    if (0..f.blocks.len()).any(|b| !reach[b] && f.blocks[b].succs.iter().any(|s| s.index() >= f.blocks.len())) {
        return;
    }
    let mut who = vec!["validator"];
    if n == 0 || !t.is_empty() {
        who.push("ion");
        who.push("fast");
    }
    for w in who {
        let r = catch_unwind(AssertUnwindSafe(|| match w {
            "validator" => CFGInfo::new(&f).and_then(|i| validate_ssa(&f, &i)),
            "ion" => run(&f, &c.env, &opts(Target::Ion, true)).map(|_| ()),
            _ => run(&f, &c.env, &opts(Target::Fast, true)).map(|_| ()),
        }));
        let (v, msg) = tell(r);
        let bad = match v.0.as_str() {
            "panic" => Some("panic"),
            "ok" => (!t.is_empty()).then_some("accepts"),
            "ssa" if v.2 > 0 && !reach[f.flat[v.2 as usize - 1].0] => None,
            k => (!t.iter().any(|x| *x == (k, v.1, v.2))).then_some("rejects"),
        };
        em.add(bad, false, || rec(&format!("ssa:{s}:{w}"), &f, w, &v, &msg));
    }
}

pub fn run_all(seed: u64, shard: usize, shards: usize, secs: u64, want: usize, path: &str) {
    let t0 = std::time::Instant::now();
    let mut em = Emit::new(want, 6);
    let mut k = shard as u64;
    while t0.elapsed().as_secs() < secs {
        for _ in 0..64 {
            case(&mut em, seed * 1_000_000_007 + k);
            k += shards as u64;
        }
    }
    em.finish(path);
}
