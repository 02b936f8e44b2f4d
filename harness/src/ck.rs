//! The library's own checker, on real outputs and on outputs made wrong.
use crate::func::*;
use crate::gen::*;
use crate::record::*;
use crate::rng::Rng;
use regalloc2::checker::Checker;
use regalloc2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the library's checker says about an output.
pub fn verdict(c: &Case, o: &Output) -> (&'static str, String) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut ck = Checker::new(&c.f, &c.env);
        ck.prepare(o);
        ck.run()
    }));
    match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", format!("{:?}", e).chars().take(400).collect()),
        Err(p) => ("panic", panic_msg(p)),
    }
}

/// A location for a mutation: one the output uses, or any other.
fn place(rng: &mut Rng, c: &Case, o: &Output, used: &[Allocation]) -> Allocation {
    let r = rng.below(100);
    if r < 70 && !used.is_empty() {
        return *rng.pick(used);
    }
    if r < 85 {
        return Allocation::stack(SpillSlot::new(rng.below(o.num_spillslots + 2)));
    }
    let ci = rng.below(3);
    let mut s = c.env.preferred_regs_by_class[ci];
    s.union_from(c.env.non_preferred_regs_by_class[ci]);
    for p in &c.env.fixed_stack_slots {
        s.add(*p);
    }
    let v: Vec<PReg> = s.into_iter().collect();
    if v.is_empty() {
        Allocation::reg(PReg::new(rng.below(63), CLASSES[ci]))
    } else {
        Allocation::reg(*rng.pick(&v))
    }
}

/// A point at which an edit may stand: before any instruction, or after one
/// that does not end its block.
fn point(rng: &mut Rng, c: &Case) -> ProgPoint {
    let i = rng.below(c.f.flat.len());
    let (b, _) = c.f.flat[i];
    if rng.pct(60) || c.f.ranges[b].1 == i + 1 {
        ProgPoint::before(Inst::new(i))
    } else {
        ProgPoint::after(Inst::new(i))
    }
}

pub fn mutate(rng: &mut Rng, c: &Case, o: &mut Output) {
    let mut used: Vec<Allocation> = o.allocs.iter().copied().filter(|a| a.is_some()).collect();
    for (_, Edit::Move { from, to }) in &o.edits {
        used.push(*from);
        used.push(*to);
    }
    used.sort();
    used.dedup();
    let ne = o.edits.len();
    let na = o.allocs.len();
    match rng.below(12) {
        0 | 1 if ne > 0 => {
            o.edits.remove(rng.below(ne));
        }
        2 => {
            let (from, to) = (place(rng, c, o, &used), place(rng, c, o, &used));
            o.edits.push((point(rng, c), Edit::Move { from, to }));
        }
        3 if ne > 0 => {
            let k = rng.below(ne);
            let n = place(rng, c, o, &used);
            let Edit::Move { from, to } = &mut o.edits[k].1;
            *(if rng.pct(50) { from } else { to }) = n;
        }
        4 if ne > 1 => {
            let k = rng.below(ne - 1);
            let t = o.edits[k].1.clone();
            o.edits[k].1 = o.edits[k + 1].1.clone();
            o.edits[k + 1].1 = t;
        }
        5 if ne > 0 => {
            let k = rng.below(ne);
            let (_, e) = o.edits.remove(k);
            o.edits.push((point(rng, c), e));
        }
        6 if ne > 0 => {
            let k = rng.below(ne);
            let e = o.edits[k].1.clone();
            o.edits.push((point(rng, c), e));
        }
        7 | 8 if na > 0 => {
            let k = rng.below(na);
            o.allocs[k] = if rng.pct(4) { Allocation::none() } else { place(rng, c, o, &used) };
        }
        9 if na > 1 => {
            let k = rng.below(na - 1);
            o.allocs.swap(k, k + 1);
        }
        // the constraints that point elsewhere: reused inputs, limits, clobbers
        _ => {
            let mut t = vec![];
            for i in 0..c.f.flat.len() {
                for (k, op) in c.f.inst(i).ops.iter().enumerate() {
                    let special = matches!(op.constraint(), OperandConstraint::Reuse(_) | OperandConstraint::Limit(_))
                        || op.kind() == OperandKind::Use && op.pos() == OperandPos::Late
                        || op.kind() == OperandKind::Def && op.pos() == OperandPos::Early;
                    if special {
                        t.push(o.inst_alloc_offsets[i] as usize + k);
                    }
                }
            }
            if t.is_empty() {
                return;
            }
            let k = *rng.pick(&t);
            o.allocs[k] = place(rng, c, o, &used);
        }
    }
    o.edits.sort_by_key(|e| e.0);
}

/// The documented analysis as a plain dataflow computation: is there an
/// error?  Only used to pick records.
pub fn wrong(r: &Rec, c: &Case) -> bool {
    type Set = std::collections::BTreeSet<usize>;
    type St = Vec<Set>;
    let nl = r.locs.len() + 1;
    let stack = |a: usize| match r.locs[a - 1] {
        Loc::Slot(..) => true,
        Loc::Reg(cl, n) => {
            c.env.fixed_stack_slots.contains(&PReg::new(n as usize, CLASSES[cl as usize - 1]))
        }
        Loc::None => false,
    };
    let okc = |ins: &RInst, o: &ROp| -> bool {
        let l = r.locs[o.a - 1];
        match o.c {
            "any" => true,
            "reg" => !stack(o.a),
            "stack" => stack(o.a),
            "fixed" | "nonalloc" => l == Loc::Reg(o.x.0, o.x.1 as u8),
            "reuse" => matches!(l, Loc::Reg(..)) && o.a == ins.o[o.x.1 - 1].a,
            "limit" => !stack(o.a) && matches!(l, Loc::Reg(_, n) if (n as usize) < o.x.1),
            _ => false,
        }
    };
    let nb = r.blocks.len();
    let mut inn: Vec<Option<St>> = vec![None; nb];
    inn[r.entry - 1] = Some(vec![Set::new(); nl]);
    let mut work = vec![r.entry - 1];
    let mut bad = vec![false; nb];
    while let Some(b) = work.pop() {
        let bd = &r.blocks[b];
        let mut st = inn[b].clone().unwrap();
        let mut e = false;
        for i in bd.f - 1..bd.l {
            let ins = &r.insts[i];
            let mut mv = |st: &mut St, k: usize| {
                let (_, f, t) = r.edits[k - 1];
                e |= stack(f) && stack(t);
                st[t] = st[f].clone();
            };
            for k in ins.e[0]..ins.e[1] {
                mv(&mut st, k);
            }
            let look = |st: &St, late: bool| {
                ins.o.iter().filter(|o| o.late == late).any(|o| {
                    o.a == 0 || (!o.def && o.v > 0 && !st[o.a].contains(&o.v)) || !okc(ins, o)
                })
            };
            let mut e2 = look(&st, false);
            for o in ins.o.iter().filter(|o| o.def && o.v > 0) {
                for s in &mut st {
                    s.remove(&o.v);
                }
                st[o.a] = Set::from([o.v]);
            }
            for cl in &ins.clob {
                for a in 1..nl {
                    if r.locs[a - 1] == Loc::Reg(cl.0, cl.1) {
                        st[a].clear();
                    }
                }
            }
            e2 |= look(&st, true);
            for k in ins.e[1]..ins.e[2] {
                mv(&mut st, k);
            }
            e |= e2;
        }
        bad[b] = e;
        for (k, &s) in bd.s.iter().enumerate() {
            let ps = &r.blocks[s - 1].p;
            let n: St = st
                .iter()
                .map(|x| {
                    let mut y: Set = x.iter().copied().filter(|v| !ps.contains(v)).collect();
                    for (j, a) in bd.a[k].iter().enumerate() {
                        if x.contains(a) {
                            y.insert(ps[j]);
                        }
                    }
                    y
                })
                .collect();
            let t = &mut inn[s - 1];
            let ch = match t {
                None => {
                    *t = Some(n);
                    true
                }
                Some(o) => {
                    let m: St = o.iter().zip(&n).map(|(a, b)| a & b).collect();
                    let ch = m != *o;
                    *o = m;
                    ch
                }
            };
            if ch && !work.contains(&(s - 1)) {
                work.push(s - 1);
            }
        }
    }
    bad.iter().any(|&b| b)
}

/// The record of one case, a real output or one made wrong.
pub fn case(id: String, rng: &mut Rng, c: &Case) -> Option<Rec> {
    // the checker says nothing about repeated definitions
    let again = |i: &InstD| {
        let d = || i.ops.iter().enumerate().filter(|o| o.1.kind() == OperandKind::Def);
        d().any(|(j, o)| d().any(|(k, p)| j < k && o.vreg() == p.vreg()))
    };
    if c.f.blocks.iter().flat_map(|b| &b.insts).any(again) {
        return None;
    }
    let o = match catch_unwind(AssertUnwindSafe(|| run(&c.f, &c.env, &opts(c.knobs.target, false)))) {
        Ok(Ok(o)) => o,
        _ => return None,
    };
    let mut o = o;
    let n = *rng.pick(&[0, 1, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        mutate(rng, c, &mut o);
    }
    o.debug_locations.clear();
    let (v, msg) = verdict(c, &o);
    let mut c1 = c.clone();
    c1.f.slot_size = [1, 1, 1];
    c1.f.debug.clear();
    let mut r = record(id, &c1, &Outcome::Ok(o));
    r.msg = msg;
    r.ck = v;
    Some(r)
}
