//! Seeded generator of valid input functions and machine environments.
use crate::func::*;
use crate::rng::Rng;
use regalloc2::*;

pub const CLASSES: [RegClass; 3] = [RegClass::Int, RegClass::Float, RegClass::Vector];

/// Which restrictions the consumer of the function has.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Target {
    Ion,
    Fast,
}

/// Knobs of the generator. Every field is chosen from the seed unless a
/// profile pins it.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub target: Target,
    pub max_blocks: usize,
    pub max_insts: usize,
    pub debug: bool,
    pub late_uses: bool,
    pub early_defs: bool,
    pub fixed: bool,
    pub stack_ops: bool,
    pub limit: bool,
    pub reuse: bool,
    pub clobbers: bool,
    pub nonalloc: bool,
    pub fixed_stack: bool,
    pub branch_ops: bool,
    pub branch_defs: bool,
    pub multi_defs: bool,
    pub permute: bool,
    pub entry_any: bool,
    pub slack: usize,
    pub env_kind: usize,
    pub straight: bool,
    pub param_heavy: bool,
    pub many_ops: bool,
    /// How many of the latest local values (and as many outer ones) an
    /// instruction may use.
    pub window: usize,
    /// Percentage of two-address instructions among the others.
    pub chain: usize,
    pub many_labels: bool,
    /// Percentage of instructions that may need more registers than there are.
    pub short: usize,
    /// The function need not suit the other allocator.
    pub only: bool,
    /// Percentage of instructions with very many operands.
    pub wide: usize,
    /// The allocator is given the virtual registers under other numbers:
    /// number `v` becomes `v * stretch.0 + stretch.1`.
    pub stretch: (usize, usize),
}

#[derive(Clone)]
pub struct Case {
    pub f: Func,
    pub env: MachineEnv,
    pub knobs: Knobs,
}

pub fn knobs(rng: &mut Rng, target: Target, profile: &str) -> Knobs {
    let mut k = Knobs {
        target,
        max_blocks: *rng.pick(&[1, 2, 4, 4, 6, 8, 12]),
        max_insts: *rng.pick(&[3, 4, 5, 6, 8, 12]),
        debug: rng.pct(10),
        late_uses: rng.pct(50),
        early_defs: rng.pct(60),
        fixed: rng.pct(70),
        stack_ops: rng.pct(30),
        limit: target == Target::Ion && rng.pct(30),
        reuse: rng.pct(60),
        clobbers: rng.pct(60),
        nonalloc: rng.pct(25),
        fixed_stack: rng.pct(35),
        branch_ops: rng.pct(40),
        branch_defs: rng.pct(20),
        multi_defs: false,
        permute: rng.pct(35),
        entry_any: rng.pct(30),
        slack: *rng.pick(&[0, 0, 1, 2]),
        env_kind: *rng.pick(&[0, 0, 0, 1, 1, 2, 3]),
        straight: false,
        param_heavy: rng.pct(25),
        many_ops: false,
        window: if rng.pct(15) { rng.range(2, 8) } else { usize::MAX },
        chain: 0,
        many_labels: rng.pct(40),
        short: 0,
        only: false,
        wide: 0,
        stretch: (1, 0),
    };
    match profile {
        "wide" => {
            k.max_blocks = *rng.pick(&[1, 1, 2, 3]);
            k.max_insts = *rng.pick(&[3, 5, 8]);
            k.straight = k.max_blocks == 1;
            k.wide = *rng.pick(&[20, 50]);
        }
        "mix" => {}
        "small" => {
            k.max_blocks = *rng.pick(&[1, 2, 3]);
            k.max_insts = *rng.pick(&[2, 3, 4]);
        }
        "big" => {
            k.max_blocks = *rng.pick(&[15, 20, 30]);
            k.max_insts = *rng.pick(&[4, 8, 12]);
        }
        "huge" => {
            k.window = *rng.pick(&[2, 4, 8, 16]);
            match rng.below(3) {
                0 => {
                    k.straight = true;
                    k.max_blocks = 1;
                    k.max_insts = *rng.pick(&[120, 250, 400]);
                }
                1 => {
                    k.straight = true;
                    k.max_blocks = 1;
                    k.max_insts = *rng.pick(&[250, 350]);
                    k.chain = *rng.pick(&[50, 80, 95]);
                    k.reuse = true;
                }
                _ => {
                    k.max_blocks = *rng.pick(&[40, 80]);
                    k.max_insts = *rng.pick(&[2, 4, 8]);
                }
            }
        }
        "straight" => {
            k.max_blocks = 1;
            k.max_insts = *rng.pick(&[8, 14, 22]);
            k.straight = true;
        }
        "params" => {
            k.param_heavy = true;
            k.max_blocks = *rng.pick(&[4, 6, 8]);
            k.max_insts = *rng.pick(&[1, 2, 3]);
        }
        "debug" => {
            k.debug = true;
            k.max_blocks = *rng.pick(&[1, 2, 3, 4, 6]);
            k.max_insts = *rng.pick(&[3, 5, 8]);
        }
        "constraint" => {
            k.late_uses = true;
            k.early_defs = true;
            k.fixed = true;
            k.stack_ops = true;
            k.limit = target == Target::Ion;
            k.reuse = true;
            k.clobbers = true;
            k.nonalloc = true;
            k.fixed_stack = true;
            k.branch_ops = true;
        }
        "slots" => {
            k.env_kind = 0;
            k.slack = 0;
            k.max_insts = *rng.pick(&[6, 10, 14]);
        }
        "tight" => {
            k.env_kind = 4;
            k.slack = 0;
            k.late_uses = true;
            k.early_defs = true;
            k.many_ops = true;
            k.max_blocks = *rng.pick(&[1, 2, 3, 4]);
            k.max_insts = *rng.pick(&[2, 4, 6]);
            if rng.pct(15) {
                k.short = *rng.pick(&[10, 30, 100]);
            }
        }
        _ => panic!("unknown profile {profile}"),
    }
    k
}

struct EnvInfo {
    /// Allocatable registers per class.
    regs: [Vec<PReg>; 3],
    fss: [Vec<PReg>; 3],
    nonalloc: [Vec<PReg>; 3],
}

fn gen_env(rng: &mut Rng, k: &Knobs) -> (MachineEnv, EnvInfo) {
    let mut preferred = [PRegSet::empty(); 3];
    let mut nonpref = [PRegSet::empty(); 3];
    let mut scratch = [None; 3];
    let mut fss_all = vec![];
    let mut info = EnvInfo {
        regs: [vec![], vec![], vec![]],
        fss: [vec![], vec![], vec![]],
        nonalloc: [vec![], vec![], vec![]],
    };
    let scratch_mode = *rng.pick(&[0, 0, 0, 1, 1, 2]);
    let contiguous = rng.pct(60) || k.limit;
    for (ci, &c) in CLASSES.iter().enumerate() {
        let n = match k.env_kind {
            0 => rng.range(3, 5),
            1 => rng.range(4, 8),
            2 => rng.range(8, 24),
            4 => rng.range(2, 4),
            _ => {
                // asymmetric: one class may have no registers at all
                if ci == 2 && rng.pct(50) {
                    0
                } else {
                    rng.range(3, 6)
                }
            }
        };
        // (Number 63 of class Int stands for "no register".)
        let lim = if ci == 0 { 63 } else { 64 };
        let top = if contiguous { n + 6 } else { lim };
        let mut encs: Vec<usize> = (0..top.max(n + 6).min(lim)).collect();
        if !contiguous {
            rng.shuffle(&mut encs);
        }
        let mut it = encs.into_iter();
        for _ in 0..n {
            let p = PReg::new(it.next().unwrap(), c);
            info.regs[ci].push(p);
        }
        // Preferred / non-preferred partition.
        let npref = match rng.below(4) {
            0 => n,
            1 => 0,
            2 => n / 2,
            _ => n.saturating_sub(1),
        };
        for (i, &p) in info.regs[ci].iter().enumerate() {
            if i < npref {
                preferred[ci].add(p);
            } else {
                nonpref[ci].add(p);
            }
        }
        let has_scratch = match scratch_mode {
            0 => false,
            1 => true,
            _ => rng.pct(50),
        };
        let sp = PReg::new(it.next().unwrap(), c);
        if has_scratch && n > 0 {
            scratch[ci] = Some(sp);
        } else {
            info.nonalloc[ci].push(sp);
        }
        if k.fixed_stack && n > 0 {
            for _ in 0..rng.range(0, 3) {
                let p = PReg::new(it.next().unwrap(), c);
                info.fss[ci].push(p);
                fss_all.push(p);
            }
        }
        if let Some(e) = it.next() {
            info.nonalloc[ci].push(PReg::new(e, c));
        }
    }
    (
        MachineEnv {
            preferred_regs_by_class: preferred,
            non_preferred_regs_by_class: nonpref,
            scratch_by_class: scratch,
            fixed_stack_slots: fss_all,
        },
        info,
    )
}

/// Random CFG with all blocks reachable and critical edges split.
pub fn gen_cfg(rng: &mut Rng, nb: usize, straight: bool) -> Vec<Vec<usize>> {
    let mut succs: Vec<Vec<usize>> = vec![vec![]; nb];
    if straight || nb == 1 {
        for b in 0..nb.saturating_sub(1) {
            succs[b].push(b + 1);
        }
        if nb == 1 && rng.pct(10) {
            // single-block infinite loop
            succs[0].push(0);
        }
    } else if nb >= 8 && rng.pct(6) {
        // loops inside loops
        let d = (nb - 2) / 2;
        succs.truncate(2 * d + 2);
        for h in 0..=d {
            succs[h].push(h + 1);
        }
        for h in 1..=d {
            let latch = 2 * d + 1 - h;
            succs[latch].push(h);
            succs[latch].push(latch + 1);
        }
    } else {
        let back = *rng.pick(&[0, 10, 25, 40]);
        for b in 0..nb {
            let n = if b == nb - 1 {
                if rng.pct(15) {
                    1
                } else {
                    0
                }
            } else {
                *rng.pick(&[0, 1, 1, 1, 1, 2, 2, 2, 2, 3])
            };
            // a jump table
            let n = if n == 3 && rng.pct(15) { rng.range(4, 14) } else { n };
            for _ in 0..n {
                let t = if rng.pct(back) {
                    rng.range(0, b)
                } else if b + 1 < nb && rng.pct(60) {
                    b + 1
                } else if b + 1 < nb {
                    rng.range(b + 1, nb - 1)
                } else {
                    rng.below(nb)
                };
                succs[b].push(t);
            }
        }
        // Make everything reachable.
        loop {
            let mut seen = vec![false; nb];
            let mut st = vec![0];
            seen[0] = true;
            while let Some(b) = st.pop() {
                for &s in &succs[b] {
                    if !seen[s] {
                        seen[s] = true;
                        st.push(s);
                    }
                }
            }
            match (0..nb).find(|&b| !seen[b]) {
                None => break,
                Some(b) => {
                    let cands: Vec<usize> = (0..nb).filter(|&x| seen[x]).collect();
                    let p = *rng.pick(&cands);
                    succs[p].push(b);
                }
            }
        }
    }
    split_critical(&mut succs);
    succs
}

pub fn split_critical(succs: &mut Vec<Vec<usize>>) {
    let nb = succs.len();
    let mut npred = vec![0usize; nb];
    npred[0] += 1;
    for b in 0..nb {
        for &s in &succs[b] {
            npred[s] += 1;
        }
    }
    for b in 0..nb {
        if succs[b].len() > 1 {
            for i in 0..succs[b].len() {
                let s = succs[b][i];
                if npred[s] > 1 {
                    let e = succs.len();
                    succs.push(vec![s]);
                    succs[b][i] = e;
                }
            }
        }
    }
}

/// Dominator sets by plain fixpoint (entry is block 0 of `succs`).
pub fn dominators(succs: &[Vec<usize>], entry: usize) -> Vec<Vec<bool>> {
    let n = succs.len();
    let mut preds = vec![vec![]; n];
    for b in 0..n {
        for &s in &succs[b] {
            preds[s].push(b);
        }
    }
    let mut dom = vec![vec![true; n]; n];
    dom[entry] = vec![false; n];
    dom[entry][entry] = true;
    let mut changed = true;
    while changed {
        changed = false;
        for b in 0..n {
            if b == entry {
                continue;
            }
            let mut d = vec![true; n];
            for &p in &preds[b] {
                for x in 0..n {
                    d[x] &= dom[p][x];
                }
            }
            d[b] = true;
            if d != dom[b] {
                dom[b] = d;
                changed = true;
            }
        }
    }
    dom
}

pub fn rpo(succs: &[Vec<usize>], entry: usize) -> Vec<usize> {
    let n = succs.len();
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut st = vec![(entry, 0usize)];
    seen[entry] = true;
    while let Some(&mut (b, ref mut i)) = st.last_mut() {
        if *i < succs[b].len() {
            let s = succs[b][*i];
            *i += 1;
            if !seen[s] {
                seen[s] = true;
                st.push((s, 0));
            }
        } else {
            post.push(b);
            st.pop();
        }
    }
    post.reverse();
    post
}

struct G<'a> {
    rng: &'a mut Rng,
    k: &'a Knobs,
    info: EnvInfo,
    f: Func,
    classes: Vec<usize>,
    vclass: Vec<usize>,
}

/// Register demand of one instruction in one class; see `feasible`.
fn demand_ok(ops: &[Operand], clob: &PRegSet, info: &EnvInfo, ci: usize, slack: usize, count: bool) -> bool {
    let cl = CLASSES[ci];
    let regs = &info.regs[ci];
    // fixed occupancy
    let mut fe: Vec<PReg> = vec![];
    let mut fl: Vec<PReg> = clob.into_iter().filter(|p| p.class() == cl).collect();
    // (limit, phase) of non-fixed register demands
    let mut dem: Vec<(usize, u8)> = vec![];
    let mut reused = vec![false; ops.len()];
    for op in ops {
        if let OperandConstraint::Reuse(i) = op.constraint() {
            reused[i] = true;
        }
    }
    for op in ops.iter() {
        if op.class() != cl || op.as_fixed_nonallocatable().is_some() {
            continue;
        }
        let phase = match (op.kind(), op.pos()) {
            (OperandKind::Use, OperandPos::Early) => 1,
            (OperandKind::Def, OperandPos::Late) => 2,
            _ => 3,
        };
        match op.constraint() {
            OperandConstraint::FixedReg(p) => {
                if phase & 1 != 0 {
                    if fe.contains(&p) {
                        return false;
                    }
                    fe.push(p);
                }
                if phase & 2 != 0 {
                    if fl.contains(&p) {
                        return false;
                    }
                    fl.push(p);
                }
            }
            OperandConstraint::Reg => dem.push((64, phase)),
            OperandConstraint::Limit(n) => dem.push((n, phase)),
            OperandConstraint::Reuse(_) => dem.push((64, 3)),
            _ => {}
        }
    }
    let mut limits: Vec<usize> = dem.iter().map(|d| d.0).collect();
    limits.push(64);
    limits.sort_unstable();
    limits.dedup();
    for &t in limits.iter().filter(|_| count) {
        let r: Vec<PReg> = regs.iter().copied().filter(|p| p.hw_enc() < t).collect();
        let b = dem.iter().filter(|d| d.0 <= t && d.1 == 3).count();
        let e = dem.iter().filter(|d| d.0 <= t && d.1 == 1).count();
        let l = dem.iter().filter(|d| d.0 <= t && d.1 == 2).count();
        if b + e + l == 0 {
            continue;
        }
        let re = r.iter().filter(|p| !fe.contains(p)).count();
        let rl = r.iter().filter(|p| !fl.contains(p)).count();
        let rb = r.iter().filter(|p| !fl.contains(p) && !fe.contains(p)).count();
        if b + slack > rb && b > 0 || b + e + slack > re || b + l + slack > rl {
            return false;
        }
    }
    true
}

impl<'a> G<'a> {
    fn newv(&mut self, ci: usize) -> VReg {
        let v = VReg::new(self.f.num_vregs, CLASSES[ci]);
        self.f.num_vregs += 1;
        self.vclass.push(ci);
        v
    }
    fn rclass(&mut self) -> usize {
        *self.rng.pick(&self.classes)
    }
    fn feasible(&self, ops: &[Operand], clob: &PRegSet, count: bool) -> bool {
        // One vreg may not be used twice with conflicting stack demands.
        for (i, a) in ops.iter().enumerate() {
            if a.as_fixed_nonallocatable().is_some() {
                continue;
            }
            for b in &ops[i + 1..] {
                if b.as_fixed_nonallocatable().is_some() || a.vreg() != b.vreg() {
                    continue;
                }
                let stack = |o: &Operand| o.constraint() == OperandConstraint::Stack;
                if !(self.k.only && self.k.target == Target::Fast) && (stack(a) || stack(b)) {
                    return false;
                }
            }
        }
        (0..3).all(|ci| demand_ok(ops, clob, &self.info, ci, self.k.slack, count))
    }
    fn constraint(&mut self, ci: usize, is_def: bool) -> OperandConstraint {
        let r = self.rng.below(100);
        if r < 14 && self.k.fixed {
            return OperandConstraint::FixedReg(*self.rng.pick(&self.info.regs[ci]));
        }
        if r < 20 && self.k.fixed_stack && !self.info.fss[ci].is_empty() {
            return OperandConstraint::FixedReg(*self.rng.pick(&self.info.fss[ci]));
        }
        if r < 27 && self.k.stack_ops {
            return OperandConstraint::Stack;
        }
        if r < 37 && self.k.limit {
            return OperandConstraint::Limit(*self.rng.pick(&[1, 2, 2, 4, 4, 8, 8, 16, 32, 64]));
        }
        let _ = is_def;
        if r < 72 {
            OperandConstraint::Reg
        } else {
            OperandConstraint::Any
        }
    }
    fn either(&mut self, wide: bool, ci: usize, is_def: bool) -> OperandConstraint {
        if wide && self.rng.pct(93) {
            OperandConstraint::Any
        } else {
            self.constraint(ci, is_def)
        }
    }
    /// Generate one non-terminator instruction. `avail` are usable vregs.
    fn inst(&mut self, avail: &[VReg], recent: &[VReg], defs_out: &mut Vec<VReg>) -> InstD {
        let mut roll = self.rng.below(100);
        if self.k.chain > 0 && self.rng.pct(self.k.chain) {
            roll = 12;
        }
        let mut ops: Vec<Operand> = vec![];
        let mut clob = PRegSet::empty();
        let pick = |g: &mut Self| -> Option<VReg> {
            if avail.is_empty() && recent.is_empty() {
                return None;
            }
            if !recent.is_empty() && (avail.is_empty() || g.rng.pct(45)) {
                Some(*g.rng.pick(recent))
            } else {
                Some(*g.rng.pick(avail))
            }
        };
        let mut newdefs = vec![];
        if roll < 12 && self.k.clobbers {
            // call-like
            let nu = self.rng.range(0, 3);
            for _ in 0..nu {
                if let Some(v) = pick(self) {
                    let ci = v.class() as usize;
                    let c = if self.k.fixed && self.rng.pct(70) {
                        OperandConstraint::FixedReg(*self.rng.pick(&self.info.regs[ci]))
                    } else {
                        OperandConstraint::Any
                    };
                    ops.push(Operand::new(v, c, OperandKind::Use, OperandPos::Early));
                }
            }
            let nd = self.rng.range(0, 2);
            for _ in 0..nd {
                let ci = self.rclass();
                let v = self.newv(ci);
                newdefs.push(v);
                let c = if self.k.fixed && self.rng.pct(70) {
                    OperandConstraint::FixedReg(*self.rng.pick(&self.info.regs[ci]))
                } else {
                    OperandConstraint::Any
                };
                ops.push(Operand::new(v, c, OperandKind::Def, OperandPos::Late));
            }
            for _ in 0..self.rng.range(0, 3) {
                if let Some(v) = pick(self) {
                    let p = if self.k.late_uses && self.rng.pct(50) {
                        OperandPos::Late
                    } else {
                        OperandPos::Early
                    };
                    ops.push(Operand::new(v, OperandConstraint::Any, OperandKind::Use, p));
                }
            }
            let dens = *self.rng.pick(&[30, 60, 100]);
            for ci in 0..3 {
                for p in self.info.regs[ci].clone() {
                    if self.rng.pct(dens) && !ops.iter().any(|o| late_fixed(o) == Some(p)) {
                        clob.add(p);
                    }
                }
            }
        } else if roll < 24 && self.k.reuse && (!avail.is_empty() || !recent.is_empty()) {
            // two-address
            let forced = self.k.chain > 0 && !recent.is_empty() && self.rng.pct(90);
            let nu = if forced && self.rng.pct(80) {
                1
            } else {
                self.rng.range(1, 3)
            };
            for n in 0..nu {
                let v = if forced && n == 0 {
                    // Continue the chain; now and then fork it a little earlier.
                    let back = if self.rng.pct(96) { 1 } else { self.rng.range(2, 5) };
                    recent[(back - 1).min(recent.len() - 1)]
                } else {
                    pick(self).unwrap()
                };
                let c = if self.rng.pct(75) {
                    OperandConstraint::Reg
                } else {
                    OperandConstraint::Any
                };
                ops.push(Operand::new(v, c, OperandKind::Use, OperandPos::Early));
            }
            let nr = if nu >= 2 && self.rng.pct(20) { 2 } else { 1 };
            let mut idxs: Vec<usize> = (0..nu).collect();
            self.rng.shuffle(&mut idxs);
            for &i in &idxs[..nr] {
                let u = ops[i];
                let mut c = OperandConstraint::Reg;
                if self.k.fixed && self.k.target == Target::Ion && self.rng.pct(0) {
                    c = OperandConstraint::FixedReg(
                        *self.rng.pick(&self.info.regs[u.class() as usize]),
                    );
                }
                ops[i] = Operand::new(u.vreg(), c, OperandKind::Use, OperandPos::Early);
                let ci = u.class() as usize;
                let d = self.newv(ci);
                newdefs.push(d);
                ops.push(Operand::new(
                    d,
                    OperandConstraint::Reuse(i),
                    OperandKind::Def,
                    OperandPos::Late,
                ));
            }
            if self.rng.pct(25) {
                let ci = self.rclass();
                let d = self.newv(ci);
                newdefs.push(d);
                let p = if self.k.early_defs && self.rng.pct(50) {
                    OperandPos::Early
                } else {
                    OperandPos::Late
                };
                ops.push(Operand::new(d, OperandConstraint::Reg, OperandKind::Def, p));
            }
            if self.rng.pct(40) {
                // rotate so that the reuse index points backwards or forwards
                let n = ops.len();
                let r = self.rng.below(n);
                ops.rotate_left(r);
                for o in ops.iter_mut() {
                    if let OperandConstraint::Reuse(i) = o.constraint() {
                        *o = Operand::new(
                            o.vreg(),
                            OperandConstraint::Reuse((i + n - r) % n),
                            o.kind(),
                            o.pos(),
                        );
                    }
                }
            }
            if self.k.clobbers && self.rng.pct(15) {
                let ci = self.rclass();
                clob.add(*self.rng.pick(&self.info.regs[ci]));
            }
        } else if roll < 28 {
            // no operands
            if self.k.clobbers && self.rng.pct(40) {
                let ci = self.rclass();
                clob.add(*self.rng.pick(&self.info.regs[ci]));
            }
        } else {
            let wide = self.k.wide > 0 && self.rng.pct(self.k.wide);
            let (nd, nu) = if wide {
                let most = *self.rng.pick(&[20, 60, 200]);
                (self.rng.range(0, most / 4), self.rng.range(8, most))
            } else if self.k.many_ops {
                (self.rng.range(0, 4), self.rng.range(0, 5))
            } else {
                (
                    *self.rng.pick(&[0, 1, 1, 1, 1, 2, 3]),
                    *self.rng.pick(&[0, 0, 1, 1, 2, 2, 3, 4]),
                )
            };
            for _ in 0..nd {
                let ci = self.rclass();
                let v = self.newv(ci);
                newdefs.push(v);
                let p = if self.k.early_defs && self.rng.pct(22) {
                    OperandPos::Early
                } else {
                    OperandPos::Late
                };
                let c = self.either(wide, ci, true);
                ops.push(Operand::new(v, c, OperandKind::Def, p));
            }
            let mut last: Option<VReg> = None;
            for _ in 0..nu {
                let v = if last.is_some() && self.rng.pct(18) {
                    last
                } else {
                    pick(self)
                };
                if let Some(v) = v {
                    last = Some(v);
                    let p = if self.k.late_uses && self.rng.pct(22) {
                        OperandPos::Late
                    } else {
                        OperandPos::Early
                    };
                    let c = self.either(wide, v.class() as usize, false);
                    ops.push(Operand::new(v, c, OperandKind::Use, p));
                }
            }
            if self.rng.pct(50) {
                self.rng.shuffle(&mut ops);
            }
            if self.k.clobbers && self.rng.pct(12) {
                for _ in 0..self.rng.range(1, 3) {
                    let ci = self.rclass();
                    let p = *self.rng.pick(&self.info.regs[ci]);
                    if !ops.iter().any(|o| late_fixed(o) == Some(p)) {
                        clob.add(p);
                    }
                }
            }
            if self.k.nonalloc && self.rng.pct(20) {
                let ci = self.rclass();
                if !self.info.nonalloc[ci].is_empty() {
                    let p = *self.rng.pick(&self.info.nonalloc[ci]);
                    ops.push(Operand::fixed_nonallocatable(p));
                }
            }
        }
        if self.rng.pct(12) {
            self.twin(&mut ops, &mut clob);
        }
        self.relax(&mut ops, &mut clob);
        defs_out.extend(newdefs);
        InstD {
            ops,
            clob,
            branch: false,
            ret: false,
        }
    }
    /// Use one vreg a second time, under another constraint or in the other
    /// phase, with what surrounds it made awkward.
    fn twin(&mut self, ops: &mut Vec<Operand>, clob: &mut PRegSet) {
        let cand: Vec<Operand> = ops
            .iter()
            .copied()
            .filter(|o| {
                o.as_fixed_nonallocatable().is_none()
                    && o.kind() == OperandKind::Use
                    && o.constraint() != OperandConstraint::Stack
            })
            .collect();
        // (Ion keeps the other inputs of an instruction with a reused input to
        // its end: fixed registers and clobbers are not combined with those.)
        let reuse = ops
            .iter()
            .any(|o| matches!(o.constraint(), OperandConstraint::Reuse(_)));
        if cand.is_empty() || reuse {
            return;
        }
        let o = *self.rng.pick(&cand);
        let v = o.vreg();
        let ci = v.class() as usize;
        let c = match self.rng.below(4) {
            0 if self.k.fixed => {
                OperandConstraint::FixedReg(*self.rng.pick(&self.info.regs[ci]))
            }
            0 | 1 => OperandConstraint::Any,
            _ => OperandConstraint::Reg,
        };
        let p = if self.k.late_uses && self.rng.pct(70) {
            OperandPos::Late
        } else {
            OperandPos::Early
        };
        ops.push(Operand::new(v, c, OperandKind::Use, p));
        if let (OperandConstraint::FixedReg(r), true) = (o.constraint(), self.k.clobbers) {
            let free = self.info.regs[ci].contains(&r)
                && !ops.iter().any(|x| late_fixed(x) == Some(r));
            if free && self.rng.pct(70) {
                clob.add(r);
            }
        }
    }
    /// Weaken the instruction until it is feasible.
    fn relax(&mut self, ops: &mut Vec<Operand>, clob: &mut PRegSet) {
        let mut tries = 0;
        let count = !self.rng.pct(self.k.short);
        while !self.feasible(ops, clob, count) {
            tries += 1;
            if tries > 6 {
                *clob = PRegSet::empty();
            }
            // pick a relaxable operand
            let cand: Vec<usize> = (0..ops.len())
                .filter(|&i| {
                    ops[i].as_fixed_nonallocatable().is_none()
                        && !matches!(
                            ops[i].constraint(),
                            OperandConstraint::Any | OperandConstraint::Reuse(_)
                        )
                        && !ops.iter().any(|o| o.constraint() == OperandConstraint::Reuse(i))
                })
                .collect();
            if cand.is_empty() {
                // Only a reuse pattern (or stack duplicates) is left: turn the
                // reuse defs into Any defs.
                let mut any = false;
                for o in ops.iter_mut() {
                    if matches!(o.constraint(), OperandConstraint::Reuse(_)) {
                        *o = Operand::new(o.vreg(), OperandConstraint::Any, o.kind(), o.pos());
                        any = true;
                    }
                }
                if !any {
                    *clob = PRegSet::empty();
                }
                continue;
            }
            let i = *self.rng.pick(&cand);
            let o = ops[i];
            ops[i] = Operand::new(o.vreg(), OperandConstraint::Any, o.kind(), o.pos());
        }
    }
}

fn late_fixed(o: &Operand) -> Option<PReg> {
    match (o.constraint(), o.kind(), o.pos()) {
        (_, OperandKind::Use, OperandPos::Early) => None,
        (OperandConstraint::FixedReg(p), _, _) => Some(p),
        _ => None,
    }
}

/// A function for any allocator that supports its constraints.
pub fn gen(seed: u64, target: Target, profile: &str) -> Case {
    gen_for(seed, target, profile, false)
}

/// A function for one allocator: what only the other does not support occurs.
pub fn gen_only(seed: u64, target: Target, profile: &str) -> Case {
    gen_for(seed, target, profile, true)
}

fn gen_for(seed: u64, target: Target, profile: &str, only: bool) -> Case {
    let mut rng = Rng::new(seed);
    let mut k = knobs(&mut rng, target, profile);
    k.only = only;
    k.multi_defs = rng.pct(30);
    let mut c = gen_with(&mut rng, k);
    if c.f.multi_defs {
        repeat_defs(&mut rng, &mut c);
    }
    if only {
        pad(&mut Rng::new(seed ^ 0x9ad5), &mut c);
        crowd(&mut Rng::new(seed ^ 0xc03d), &mut c);
        c.knobs.stretch = far(&mut Rng::new(seed ^ 0x5157), c.f.num_vregs);
    }
    c
}

/// Now and then, long stretches of instructions that do nothing.
fn pad(rng: &mut Rng, c: &mut Case) {
    let most = match rng.below(8000) {
        0 if c.f.debug.is_empty() => 70_000,
        1..=40 => 600,
        41..=160 => 120,
        161..=320 => 24,
        _ => return,
    };
    let f = &mut c.f;
    let dens = *rng.pick(&[10, 30, 60]);
    let mut left = most;
    let mut at = vec![0usize; f.flat.len() + 1];
    let mut n = 0;
    let mut old = 0;
    for b in &mut f.blocks {
        let mut insts = vec![];
        for i in std::mem::take(&mut b.insts) {
            if rng.pct(dens) {
                let m = if most > 10_000 { rng.range(left / 2, left) } else { rng.range(0, left.min(most / 2)) };
                left -= m;
                insts.extend((0..m).map(|_| InstD::default()));
                n += m;
            }
            at[old] = n;
            old += 1;
            n += 1;
            insts.push(i);
        }
        b.insts = insts;
    }
    at[old] = n;
    for d in &mut f.debug {
        d.1 = Inst::new(at[d.1.index()]);
        d.2 = Inst::new(at[d.2.index()]);
    }
    f.seal_ranges();
}

/// Now and then, an instruction that names one of its inputs very often.
fn crowd(rng: &mut Rng, c: &mut Case) {
    let most = match rng.below(8000) {
        0 => 65_535 + rng.range(0, 2),
        1 => rng.range(65_600, 80_000),
        2..=20 => 256 + rng.range(0, 2),
        21..=60 => rng.range(257, 600),
        _ => return,
    };
    let regs = c.knobs.target == Target::Ion;
    let again = |o: &Operand| {
        o.kind() == OperandKind::Use
            && o.as_fixed_nonallocatable().is_none()
            && (o.constraint() == OperandConstraint::Any || regs && o.constraint() == OperandConstraint::Reg)
    };
    let all: Vec<usize> = (0..c.f.flat.len()).filter(|&i| c.f.inst(i).ops.iter().any(again)).collect();
    if all.is_empty() {
        return;
    }
    let (b, k) = c.f.flat[*rng.pick(&all)];
    let ops = &mut c.f.blocks[b].insts[k].ops;
    let from: Vec<Operand> = ops.iter().copied().filter(again).collect();
    let reused = ops.iter().filter_map(|o| match o.constraint() {
        OperandConstraint::Reuse(i) => Some(i + 1),
        _ => None,
    });
    let at = rng.range(reused.max().unwrap_or(0), ops.len());
    let tail = ops.split_off(at);
    while ops.len() + tail.len() < most {
        ops.push(*rng.pick(&from));
    }
    ops.extend(tail);
}

/// Now and then, large virtual register numbers.
fn far(rng: &mut Rng, nv: usize) -> (usize, usize) {
    let top = match rng.below(3000) {
        0 => 2_200_000,
        1..=20 => 300_000,
        21..=80 => 70_000,
        81..=300 => 4_000,
        _ => return (1, 0),
    };
    let mul = match rng.below(3) {
        0 => 1,
        1 => (top / (nv + 1)).max(1),
        _ => rng.range(1, (top / (nv + 1)).max(1)),
    };
    let room = (top + 1).saturating_sub(nv * mul);
    (mul, if rng.pct(50) { room } else { rng.range(0, room) })
}

/// Instructions that name a definition more than once.
fn repeat_defs(rng: &mut Rng, c: &mut Case) {
    if c.knobs.target != Target::Ion || rng.pct(40) {
        return;
    }
    let fss = c.env.fixed_stack_slots.clone();
    for b in &mut c.f.blocks {
        for i in &mut b.insts {
            if i.ops.is_empty() || !rng.pct(25) {
                continue;
            }
            let k = rng.below(i.ops.len());
            let o = i.ops[k];
            if o.kind() != OperandKind::Def || o.as_fixed_nonallocatable().is_some() {
                continue;
            }
            match o.constraint() {
                // Not supported; see known-findings.txt.
                OperandConstraint::Stack => continue,
                OperandConstraint::FixedReg(p) if fss.contains(&p) => continue,
                _ => {}
            }
            for _ in 0..rng.range(1, 2) {
                let con = match o.constraint() {
                    OperandConstraint::Reuse(_) => OperandConstraint::Any,
                    x if rng.pct(50) => x,
                    _ => OperandConstraint::Any,
                };
                i.ops.push(Operand::new(o.vreg(), con, OperandKind::Def, o.pos()));
            }
        }
    }
}

pub fn gen_with(rng: &mut Rng, k: Knobs) -> Case {
    let (env, info) = gen_env(rng, &k);
    let nb0 = rng.range(1, k.max_blocks);
    let mut succs = gen_cfg(rng, nb0, k.straight);
    let nb = succs.len();
    // Renumber blocks.
    let mut entry = 0usize;
    if k.permute && nb > 2 {
        let mut perm: Vec<usize> = (0..nb).collect();
        if k.entry_any {
            rng.shuffle(&mut perm);
        } else {
            rng.shuffle(&mut perm[1..]);
        }
        let mut ns = vec![vec![]; nb];
        for b in 0..nb {
            ns[perm[b]] = succs[b].iter().map(|&s| perm[s]).collect();
        }
        succs = ns;
        entry = perm[0];
    }
    let dom = dominators(&succs, entry);
    let order = rpo(&succs, entry);

    let mut classes = vec![];
    for ci in 0..3 {
        if !info.regs[ci].is_empty() {
            let w = match ci {
                0 => 5,
                1 => *rng.pick(&[0, 2, 3]),
                _ => *rng.pick(&[0, 0, 1, 2]),
            };
            for _ in 0..w {
                classes.push(ci);
            }
        }
    }
    let mut f = Func::new();
    f.entry = entry;
    f.slot_size = *rng.pick(&[
        [1, 1, 1],
        [1, 1, 1],
        [1, 1, 2],
        [1, 2, 4],
        [1, 1, 4],
        [2, 1, 1],
        [2, 4, 8],
        [1, 4, 2],
        [4, 2, 1],
        [2, 8, 1],
    ]);
    f.named_last = rng.pct(35);
    f.multi_defs = k.multi_defs;
    let mut g = G {
        rng,
        k: &k,
        info,
        f,
        classes,
        vclass: vec![],
    };
    let mut blocks: Vec<BlockD> = (0..nb)
        .map(|b| BlockD {
            succs: succs[b].iter().map(|&s| Block::new(s)).collect(),
            ..Default::default()
        })
        .collect();
    let mut npreds = vec![0usize; nb];
    npreds[entry] += 1;
    for b in 0..nb {
        for &s in &succs[b] {
            npreds[s] += 1;
        }
    }
    // Params first so that branch args can be matched.
    for b in 0..nb {
        if b == entry {
            continue;
        }
        let n = if g.k.param_heavy {
            g.rng.range(0, 5)
        } else {
            *g.rng.pick(&[0, 0, 1, 1, 2, 3])
        };
        for _ in 0..n {
            let ci = g.rclass();
            let v = g.newv(ci);
            blocks[b].params.push(v);
        }
    }
    let mut defined: Vec<Vec<VReg>> = vec![vec![]; nb];
    for &b in &order {
        let mut local: Vec<VReg> = blocks[b].params.clone();
        let mut outer: Vec<VReg> = vec![];
        for d in 0..nb {
            if d != b && dom[b][d] {
                outer.extend(defined[d].iter().copied());
            }
        }
        let ni = if g.rng.pct(12) {
            0
        } else {
            g.rng.range(if g.k.chain > 0 { g.k.max_insts / 2 } else { 1 }, g.k.max_insts)
        };
        // A long undisturbed chain first: one bundle of hundreds of ranges.
        let pure = if g.k.chain == 95 { g.rng.range(180, 240) } else { 0 };
        for n in 0..ni {
            if n > 3 && n < pure {
                if let Some(&u) = local.last() {
                    let d = g.newv(u.class() as usize);
                    blocks[b].insts.push(InstD {
                        ops: vec![
                            Operand::new(u, OperandConstraint::Reg, OperandKind::Use, OperandPos::Early),
                            Operand::new(d, OperandConstraint::Reuse(0), OperandKind::Def, OperandPos::Late),
                        ],
                        ..Default::default()
                    });
                    local.push(d);
                    continue;
                }
            }
            let recent: Vec<VReg> = local.iter().rev().take(4).copied().collect();
            let mut avail: Vec<VReg> = Vec::new();
            if g.k.window < outer.len() {
                for _ in 0..g.k.window {
                    avail.push(*g.rng.pick(&outer));
                }
            } else {
                avail.extend(outer.iter().copied());
            }
            avail.extend(local.iter().rev().take(g.k.window).rev().copied());
            let mut defs = vec![];
            let i = g.inst(&avail, &recent, &mut defs);
            blocks[b].insts.push(i);
            local.extend(defs);
        }
        // Terminator: branch args.
        let mut args_all = vec![];
        for &s in &succs[b] {
            let mut args = vec![];
            for p in blocks[s].params.clone() {
                let ci = p.class() as usize;
                let cands: Vec<VReg> = outer
                    .iter()
                    .chain(local.iter())
                    .copied()
                    .filter(|v| v.class() as usize == ci)
                    .collect();
                let v = if cands.is_empty() || g.rng.pct(4) {
                    let v = g.newv(ci);
                    local.push(v);
                    let c = if g.rng.pct(50) {
                        OperandConstraint::Reg
                    } else {
                        OperandConstraint::Any
                    };
                    blocks[b].insts.push(InstD {
                        ops: vec![Operand::new(v, c, OperandKind::Def, OperandPos::Late)],
                        ..Default::default()
                    });
                    v
                } else if s == b && g.rng.pct(40) {
                    // self loop: permute own params
                    let own: Vec<VReg> = blocks[b]
                        .params
                        .iter()
                        .copied()
                        .filter(|v| v.class() as usize == ci)
                        .collect();
                    *g.rng.pick(&own)
                } else {
                    // prefer other block params (swaps, rotations)
                    let ps: Vec<VReg> = cands
                        .iter()
                        .copied()
                        .filter(|v| blocks.iter().any(|bb| bb.params.contains(v)))
                        .collect();
                    if !ps.is_empty() && g.rng.pct(50) {
                        *g.rng.pick(&ps)
                    } else {
                        *g.rng.pick(&cands)
                    }
                };
                args.push(v);
            }
            args_all.push(args);
        }
        let mut term = InstD {
            branch: !succs[b].is_empty(),
            ret: succs[b].is_empty(),
            ..Default::default()
        };
        let branch_ops_ok = succs[b].iter().all(|&s| npreds[s] <= 1);
        if (succs[b].is_empty() && g.rng.pct(60))
            || (g.k.branch_ops && branch_ops_ok && g.rng.pct(50))
        {
            let cands: Vec<VReg> = outer.iter().chain(local.iter()).copied().collect();
            if !cands.is_empty() {
                for _ in 0..g.rng.range(1, 3) {
                    let v = *g.rng.pick(&cands);
                    let c = g.constraint(v.class() as usize, false);
                    let p = if g.k.late_uses && g.rng.pct(15) {
                        OperandPos::Late
                    } else {
                        OperandPos::Early
                    };
                    term.ops.push(Operand::new(v, c, OperandKind::Use, p));
                }
            }
            if g.k.branch_defs && !succs[b].is_empty() && g.rng.pct(50) {
                for _ in 0..g.rng.range(1, 2) {
                    let ci = g.rclass();
                    let v = g.newv(ci);
                    local.push(v);
                    let c = match g.constraint(ci, true) {
                        // fastalloc only takes results in fixed places
                        c @ (OperandConstraint::Reg | OperandConstraint::Limit(_))
                            if g.k.target == Target::Fast =>
                        {
                            let _ = c;
                            OperandConstraint::FixedReg(*g.rng.pick(&g.info.regs[ci]))
                        }
                        c => c,
                    };
                    let p = if g.k.early_defs && g.rng.pct(15) {
                        OperandPos::Early
                    } else {
                        OperandPos::Late
                    };
                    term.ops.push(Operand::new(v, c, OperandKind::Def, p));
                    for args in args_all.iter_mut() {
                        for x in args.iter_mut() {
                            if x.class() as usize == ci && g.rng.pct(40) {
                                *x = v;
                            }
                        }
                    }
                }
            }
            if g.k.clobbers && g.rng.pct(15) && !succs[b].is_empty() {
                let ci = g.rclass();
                let p = *g.rng.pick(&g.info.regs[ci]);
                if !term.ops.iter().any(|o| late_fixed(o) == Some(p)) {
                    term.clob.add(p);
                }
            }
            let mut ops = core::mem::take(&mut term.ops);
            let mut cl = term.clob;
            g.relax(&mut ops, &mut cl);
            term.ops = ops;
            term.clob = cl;
        }
        blocks[b].insts.push(term);
        blocks[b].args = args_all;
        defined[b] = local;
    }
    let vclass = g.vclass;
    let mut f = g.f;
    f.blocks = blocks;
    f.seal();
    if k.debug && f.num_vregs > 0 {
        let ni = f.flat.len();
        let n = if k.many_labels { rng.range(4, 16) } else { rng.range(1, 6) };
        // Many short requests for few vregs, or a few long ones.
        let focus = rng.below(f.num_vregs);
        for _ in 0..n {
            let v = if k.many_labels && rng.pct(70) { focus } else { rng.below(f.num_vregs) };
            let ci = vclass[v];
            let a = rng.below(ni);
            let b = if k.many_labels && rng.pct(70) {
                rng.range(a + 1, (a + 4).min(ni))
            } else {
                rng.range(a + 1, ni)
            };
            f.debug.push((
                VReg::new(v, CLASSES[ci]),
                Inst::new(a),
                Inst::new(b),
                (ci * 4 + rng.below(4)) as u32,
            ));
        }
        f.debug.sort_unstable();
    }
    Case { f, env, knobs: k }
}

/// Must the allocator find registers for every instruction?
pub fn roomy(c: &Case) -> bool {
    let fast = c.knobs.target == Target::Fast;
    c.f.blocks.iter().all(|b| {
        b.insts.iter().all(|i| {
            (0..3).all(|ci| {
                if fast && c.env.scratch_by_class[ci].is_none() {
                    generous_inst(c, i, ci)
                } else {
                    easy_inst(c, i, ci)
                }
            })
        })
    })
}

/// For fastalloc without a dedicated scratch register: clobbers and fixed
/// registers are reserved in both phases, reuse pairs counted twice.
fn generous_inst(c: &Case, i: &crate::func::InstD, ci: usize) -> bool {
    let cl = CLASSES[ci];
    let mut s = c.env.preferred_regs_by_class[ci];
    s.union_from(c.env.non_preferred_regs_by_class[ci]);
    let mut busy: Vec<PReg> = i.clob.into_iter().filter(|p| p.class() == cl).collect();
    let mut n = 0;
    let mut lim = usize::MAX;
    for o in &i.ops {
        if o.as_fixed_nonallocatable().is_some() || o.class() != cl {
            continue;
        }
        match o.constraint() {
            OperandConstraint::FixedReg(p) => {
                busy.push(p);
                n += 1
            }
            OperandConstraint::Reuse(_) => n += 2,
            OperandConstraint::Limit(l) => {
                n += 1;
                lim = lim.min(l);
            }
            _ => n += 1,
        }
    }
    n == 0 || s.into_iter().filter(|p| p.hw_enc() < lim && !busy.contains(p)).count() > n
}

/// Can greed not fail?  Whatever registers the other operands and clobbers of
/// an instruction take at the points where an operand needs its register, one
/// that it may use is left.
fn easy_inst(c: &Case, i: &crate::func::InstD, ci: usize) -> bool {
    let cl = CLASSES[ci];
    let mut s = c.env.preferred_regs_by_class[ci];
    s.union_from(c.env.non_preferred_regs_by_class[ci]);
    let regs: Vec<PReg> = s.into_iter().collect();
    struct Need {
        at: [bool; 2],
        may: usize,
        fixed: Option<PReg>,
    }
    let mut needs = vec![];
    for o in &i.ops {
        if o.as_fixed_nonallocatable().is_some() || o.class() != cl {
            continue;
        }
        let mut at = match (o.kind(), o.pos()) {
            (OperandKind::Use, OperandPos::Early) => [true, false],
            (OperandKind::Def, OperandPos::Late) => [false, true],
            _ => [true, true],
        };
        // Ion keeps all inputs of an instruction that reuses one to its end
        if o.kind() == OperandKind::Use
            && i.ops.iter().any(|q| matches!(q.constraint(), OperandConstraint::Reuse(_)))
        {
            at = [true, true];
        }
        let (may, fixed) = match o.constraint() {
            OperandConstraint::FixedReg(p) => (usize::MAX, Some(p)),
            OperandConstraint::Reg => (usize::MAX, None),
            OperandConstraint::Reuse(_) => {at = [true, true]; (usize::MAX, None)},
            OperandConstraint::Limit(n) => (n, None),
            _ => continue,
        };
        needs.push(Need { at, may, fixed });
    }
    needs.iter().enumerate().all(|(x, n)| {
        if n.fixed.is_some() {
            return true;
        }
        let meets = |m: &Need| (0..2).any(|t| n.at[t] && m.at[t]);
        let free = regs
            .iter()
            .filter(|p| {
                p.hw_enc() < n.may
                    && !(n.at[1] && i.clob.contains(**p))
                    && !needs.iter().any(|m| m.fixed == Some(**p) && meets(m))
            })
            .count();
        let others = needs.iter().enumerate().filter(|(y, m)| *y != x && m.fixed.is_none() && meets(m)).count();
        free > others
    })
}
