//! Greedy structural shrinker for generated functions. Keeps SSA validity.
use crate::func::*;
use crate::gen::Case;
use regalloc2::*;
use std::collections::BTreeSet;

fn used_vregs(f: &Func) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    for b in &f.blocks {
        for i in &b.insts {
            for o in &i.ops {
                if o.kind() == OperandKind::Use {
                    s.insert(o.vreg().vreg());
                }
            }
        }
        for a in &b.args {
            for v in a {
                s.insert(v.vreg());
            }
        }
    }
    for d in &f.debug {
        s.insert(d.0.vreg());
    }
    s
}

fn drop_op(i: &mut InstD, k: usize) -> bool {
    for o in &i.ops {
        if o.constraint() == OperandConstraint::Reuse(k) {
            return false;
        }
    }
    i.ops.remove(k);
    for o in i.ops.iter_mut() {
        if let OperandConstraint::Reuse(r) = o.constraint() {
            if r > k {
                *o = Operand::new(o.vreg(), OperandConstraint::Reuse(r - 1), o.kind(), o.pos());
            }
        }
    }
    true
}

/// For very large cases: whole stretches of operands or of empty instructions.
fn coarse(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let empty = |i: &InstD| i.ops.is_empty() && i.clob.len() == 0 && !i.branch && !i.ret;
    for (b, bd) in c.f.blocks.iter().enumerate() {
        for (i, ins) in bd.insts.iter().enumerate() {
            if ins.ops.len() > 300 {
                let step = (ins.ops.len() / 8).max(1);
                for from in (0..ins.ops.len()).step_by(step) {
                    let mut n = c.clone();
                    let ops = &mut n.f.blocks[b].insts[i];
                    for k in (from..(from + step).min(ins.ops.len())).rev() {
                        if ins.ops[k].kind() == OperandKind::Use {
                            drop_op(ops, k);
                        }
                    }
                    if n.f.blocks[b].insts[i].ops.len() < ins.ops.len() {
                        out.push(n);
                    }
                }
            }
        }
        if bd.insts.len() > 300 && c.f.debug.is_empty() {
            let step = (bd.insts.len() / 8).max(1);
            for from in (0..bd.insts.len()).step_by(step) {
                let mut n = c.clone();
                let mut k = 0;
                n.f.blocks[b].insts.retain(|i| {
                    k += 1;
                    !(k > from && k <= from + step && empty(i))
                });
                if n.f.blocks[b].insts.len() < bd.insts.len() {
                    n.f.seal_ranges();
                    out.push(n);
                }
            }
        }
    }
    out
}

fn candidates(c: &Case) -> Vec<Case> {
    let size = |i: &InstD| 1 + i.ops.len();
    if c.f.blocks.iter().flat_map(|b| &b.insts).map(size).sum::<usize>() > 4000 {
        return coarse(c);
    }
    let mut out = vec![];
    let used = used_vregs(&c.f);
    let f = &c.f;
    let no_debug = f.debug.is_empty();
    if !no_debug {
        let mut n = c.clone();
        n.f.debug.clear();
        out.push(n);
        for k in 0..f.debug.len() {
            let mut n = c.clone();
            n.f.debug.remove(k);
            out.push(n);
        }
    }
    for b in 0..f.blocks.len() {
        // cut the block short: turn the terminator into a return
        if f.blocks[b].insts.last().map_or(false, |i| i.branch) {
            // keep reachability simple: only allowed when all remaining blocks stay reachable
            let mut n = c.clone();
            n.f.blocks[b].succs.clear();
            n.f.blocks[b].args.clear();
            let t = n.f.blocks[b].insts.last_mut().unwrap();
            t.branch = false;
            t.ret = true;
            if let Some(n) = prune_unreachable(n) {
                out.push(n);
            }
            for k in 0..f.blocks[b].succs.len() {
                if f.blocks[b].succs.len() > 1 {
                    let mut n = c.clone();
                    n.f.blocks[b].succs.remove(k);
                    n.f.blocks[b].args.remove(k);
                    if let Some(n) = prune_unreachable(n) {
                        out.push(n);
                    }
                }
            }
        }
        for p in 0..f.blocks[b].params.len() {
            if !used.contains(&f.blocks[b].params[p].vreg()) {
                let mut n = c.clone();
                n.f.blocks[b].params.remove(p);
                for x in 0..n.f.blocks.len() {
                    for (k, s) in n.f.blocks[x].succs.clone().iter().enumerate() {
                        if s.index() == b {
                            n.f.blocks[x].args[k].remove(p);
                        }
                    }
                }
                out.push(n);
            }
        }
        for i in 0..f.blocks[b].insts.len() {
            let ins = &f.blocks[b].insts[i];
            let defs_used = ins
                .ops
                .iter()
                .any(|o| o.kind() == OperandKind::Def && used.contains(&o.vreg().vreg()));
            if no_debug && !defs_used && !ins.branch && !ins.ret {
                let mut n = c.clone();
                n.f.blocks[b].insts.remove(i);
                n.f.seal_ranges();
                out.push(n);
            }
            if ins.clob.len() > 0 {
                let mut n = c.clone();
                n.f.blocks[b].insts[i].clob = PRegSet::empty();
                out.push(n);
                for p in ins.clob.into_iter() {
                    let mut n = c.clone();
                    n.f.blocks[b].insts[i].clob.remove(p);
                    out.push(n);
                }
            }
            for k in 0..ins.ops.len() {
                let o = ins.ops[k];
                if o.kind() == OperandKind::Use || !used.contains(&o.vreg().vreg()) {
                    let mut n = c.clone();
                    if drop_op(&mut n.f.blocks[b].insts[i], k) {
                        out.push(n);
                    }
                }
                if o.as_fixed_nonallocatable().is_none()
                    && o.constraint() != OperandConstraint::Any
                    && !ins.ops.iter().any(|x| x.constraint() == OperandConstraint::Reuse(k))
                {
                    let mut n = c.clone();
                    n.f.blocks[b].insts[i].ops[k] =
                        Operand::new(o.vreg(), OperandConstraint::Any, o.kind(), o.pos());
                    out.push(n);
                }
                let p = match o.kind() {
                    OperandKind::Use => OperandPos::Early,
                    _ => OperandPos::Late,
                };
                if o.pos() != p && o.as_fixed_nonallocatable().is_none() {
                    let mut n = c.clone();
                    n.f.blocks[b].insts[i].ops[k] = Operand::new(o.vreg(), o.constraint(), o.kind(), p);
                    out.push(n);
                }
            }
        }
    }
    out
}

/// Remove unreachable blocks, renumbering the rest.
fn prune_unreachable(mut c: Case) -> Option<Case> {
    let f = &mut c.f;
    let n = f.blocks.len();
    let mut seen = vec![false; n];
    let mut st = vec![f.entry];
    seen[f.entry] = true;
    while let Some(b) = st.pop() {
        for s in &f.blocks[b].succs {
            if !seen[s.index()] {
                seen[s.index()] = true;
                st.push(s.index());
            }
        }
    }
    if !f.debug.is_empty() && seen.iter().any(|x| !x) {
        return None;
    }
    let mut map = vec![usize::MAX; n];
    let mut k = 0;
    for b in 0..n {
        if seen[b] {
            map[b] = k;
            k += 1;
        }
    }
    let mut nb = vec![];
    for b in 0..n {
        if seen[b] {
            let mut x = f.blocks[b].clone();
            for s in x.succs.iter_mut() {
                *s = Block::new(map[s.index()]);
            }
            nb.push(x);
        }
    }
    f.entry = map[f.entry];
    f.blocks = nb;
    f.seal();
    Some(c)
}

/// Shrink while `bad` holds. `budget` bounds the number of evaluations.
pub fn shrink(mut c: Case, mut budget: usize, bad: impl Fn(&Case) -> bool) -> Case {
    'outer: loop {
        for n in candidates(&c) {
            if budget == 0 {
                return c;
            }
            budget -= 1;
            if bad(&n) {
                c = n;
                continue 'outer;
            }
        }
        return c;
    }
}

pub fn show(c: &Case) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let f = &c.f;
    let _ = writeln!(s, "entry=b{} slot={:?} last={}", f.entry, f.slot_size, f.named_last);
    let _ = writeln!(
        s,
        "pref={} nonpref={} scratch={:?} fss={:?}",
        c.env.preferred_regs_by_class.iter().map(|x| x.to_string()).collect::<String>(),
        c.env.non_preferred_regs_by_class.iter().map(|x| x.to_string()).collect::<String>(),
        c.env.scratch_by_class.iter().map(|x| x.map(|p| p.to_string())).collect::<Vec<_>>(),
        c.env.fixed_stack_slots.iter().map(|p| p.to_string()).collect::<Vec<_>>()
    );
    let mut n = 0;
    for (bi, b) in f.blocks.iter().enumerate() {
        let _ = writeln!(
            s,
            "block{}({}) preds {:?}",
            bi,
            b.params.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","),
            b.preds.iter().map(|x| x.index()).collect::<Vec<_>>()
        );
        for i in &b.insts {
            let _ = writeln!(
                s,
                "   {}: {}{:?} clob {}",
                n,
                if i.branch { "branch " } else if i.ret { "ret " } else { "" },
                i.ops,
                i.clob
            );
            n += 1;
        }
        for (k, su) in b.succs.iter().enumerate() {
            let _ = writeln!(
                s,
                "     -> block{}({})",
                su.index(),
                b.args[k].iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
            );
        }
    }
    let _ = writeln!(s, "debug {:?}", f.debug);
    s
}
