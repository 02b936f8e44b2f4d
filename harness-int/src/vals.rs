//! Packed value types: what goes in must come out.
//! Every record is a list of observations, see spec/ValueTypes.tla.
use crate::emit::Emit;
use crate::sets::{rec, Op};
use ravharness::record::panic_msg;
use ravharness::rng::Rng;
use regalloc2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const CL: [RegClass; 3] = [RegClass::Int, RegClass::Float, RegClass::Vector];

fn con(c: OperandConstraint) -> [i64; 3] {
    match c {
        OperandConstraint::Any => [0, 0, 0],
        OperandConstraint::Reg => [1, 0, 0],
        OperandConstraint::Stack => [2, 0, 0],
        OperandConstraint::FixedReg(p) => [3, p.hw_enc() as i64, p.class() as i64],
        OperandConstraint::Reuse(i) => [4, i as i64, 0],
        OperandConstraint::Limit(i) => [5, i as i64, 0],
    }
}

fn see(o: Operand) -> Vec<i64> {
    let c = con(o.constraint());
    let back = Operand::from_bits(o.bits());
    let fna = o.as_fixed_nonallocatable();
    vec![
        o.vreg().vreg() as i64,
        o.vreg().class() as i64,
        o.class() as i64,
        (o.kind() == OperandKind::Use) as i64,
        (o.pos() == OperandPos::Late) as i64,
        c[0],
        c[1],
        c[2],
        (back == o) as i64,
        fna.map_or(-1, |p| p.hw_enc() as i64 + 64 * p.class() as i64),
    ]
}

fn num(rng: &mut Rng, max: usize) -> usize {
    match rng.below(5) {
        0 => 0,
        1 => max,
        2 => max - rng.below(3).min(max),
        3 => rng.below(max + 1),
        _ => (1usize << rng.below(usize::BITS as usize - max.leading_zeros() as usize).min(62)).min(max),
    }
}

fn b(x: bool) -> i64 {
    x as i64
}

fn one(rng: &mut Rng, ops: &mut Vec<Op>) {
    let c = rng.below(3);
    let hw = num(rng, PReg::MAX);
    let p = PReg::new(hw, CL[c]);
    let vn = num(rng, VReg::MAX - 1);
    let v = VReg::new(vn, CL[c]);
    match rng.below(12) {
        0 => {
            let back = PReg::from_index(p.index());
            ops.push(Op("preg", vec![hw as i64, c as i64], vec![
                p.hw_enc() as i64, p.class() as i64, p.index() as i64, b(back == p),
                b(p.as_valid() == Some(p)), b(p == PReg::invalid()), PReg::invalid().index() as i64,
            ]));
        }
        1 => {
            let back = VReg::from_bits(v.bits() as u32);
            ops.push(Op("vreg", vec![vn as i64, c as i64], vec![
                v.vreg() as i64, v.class() as i64, b(back == v), b(VReg::from(v.bits() as u32) == v), b(v == VReg::invalid()),
            ]));
        }
        2 => {
            let i = num(rng, SpillSlot::MAX - 64);
            let d = rng.below(64);
            let s = SpillSlot::new(i);
            ops.push(Op("slot", vec![i as i64, d as i64], vec![
                s.index() as i64, s.plus(d).index() as i64, b(s.is_valid()), b(s.is_invalid()),
                b(SpillSlot::invalid().is_invalid()), b(SpillSlot::invalid().is_valid()),
            ]));
        }
        3 | 4 => {
            let i = num(rng, SpillSlot::MAX);
            let k = rng.below(3);
            let a = match k {
                0 => Allocation::none(),
                1 => Allocation::reg(p),
                _ => Allocation::stack(SpillSlot::new(i)),
            };
            let kind = match a.kind() {
                AllocationKind::None => 0,
                AllocationKind::Reg => 1,
                AllocationKind::Stack => 2,
            };
            ops.push(Op("alloc", vec![k as i64, if k == 1 { p.index() as i64 } else if k == 2 { i as i64 } else { 0 }], vec![
                kind, a.index() as i64, b(a.is_none()), b(a.is_some()), b(a.is_reg()), b(a.is_stack()),
                a.as_reg().map_or(-1, |p| p.index() as i64), a.as_stack().map_or(-1, |s| s.index() as i64),
                b(Allocation::from_bits(a.bits()) == a),
            ]));
        }
        5 | 6 => {
            let k = rng.below(6);
            let (oc, arg) = match k {
                0 => (OperandConstraint::Any, 0),
                1 => (OperandConstraint::Reg, 0),
                2 => (OperandConstraint::Stack, 0),
                3 => (OperandConstraint::FixedReg(p), hw),
                4 => {
                    let i = rng.below(32);
                    (OperandConstraint::Reuse(i), i)
                }
                _ => {
                    let i = 1usize << rng.below(7);
                    (OperandConstraint::Limit(i), i)
                }
            };
            let us = rng.pct(50);
            let late = rng.pct(50);
            let o = Operand::new(v, oc, if us { OperandKind::Use } else { OperandKind::Def }, if late { OperandPos::Late } else { OperandPos::Early });
            ops.push(Op("operand", vec![vn as i64, c as i64, k as i64, arg as i64, b(us), b(late)], see(o)));
        }
        7 | 8 => {
            let i = rng.below(32);
            let (n, o): (&'static str, Operand) = match rng.below(13) {
                0 => ("reg_use", Operand::reg_use(v)),
                1 => ("reg_use_at_end", Operand::reg_use_at_end(v)),
                2 => ("reg_def", Operand::reg_def(v)),
                3 => ("reg_def_at_start", Operand::reg_def_at_start(v)),
                4 => ("reg_temp", Operand::reg_temp(v)),
                5 => ("reg_reuse_def", Operand::reg_reuse_def(v, i)),
                6 => ("reg_fixed_use", Operand::reg_fixed_use(v, p)),
                7 => ("reg_fixed_def", Operand::reg_fixed_def(v, p)),
                8 => ("reg_fixed_use_at_end", Operand::reg_fixed_use_at_end(v, p)),
                9 => ("reg_fixed_def_at_start", Operand::reg_fixed_def_at_start(v, p)),
                10 => ("any_use", Operand::any_use(v)),
                11 => ("any_def", Operand::any_def(v)),
                _ => ("fixed_nonallocatable", Operand::fixed_nonallocatable(p)),
            };
            ops.push(Op(n, vec![vn as i64, c as i64, hw as i64, i as i64], see(o)));
        }
        9 => {
            // Program points: order, neighbours.
            let m = (1usize << 30) - 8;
            let i = num(rng, m).max(1);
            let j = if rng.pct(70) { (i + rng.below(3)).saturating_sub(1) } else { num(rng, m) };
            let (pi, pj) = (rng.pct(50), rng.pct(50));
            let mk = |i: usize, a: bool| if a { ProgPoint::after(Inst::new(i)) } else { ProgPoint::before(Inst::new(i)) };
            let (x, y) = (mk(i, pi), mk(j, pj));
            let at = |p: ProgPoint| [p.inst().index() as i64, b(p.pos() == InstPosition::After)];
            ops.push(Op("point", vec![i as i64, b(pi), j as i64, b(pj)], vec![
                at(x)[0], at(x)[1], b(x < y), b(x == y), b(x > y),
                at(x.next())[0], at(x.next())[1], at(x.prev())[0], at(x.prev())[1],
                b(ProgPoint::from_index(x.to_index()) == x),
                b(ProgPoint::new(Inst::new(i), if pi { InstPosition::After } else { InstPosition::Before }) == x),
                b(ProgPoint::invalid().inst().is_invalid()),
            ]));
        }
        10 => {
            let a = num(rng, 1 << 20);
            let n = rng.below(6);
            let r = InstRange::new(Inst::new(a), Inst::new(a + n));
            let mut l = vec![r.len() as i64];
            if n > 0 {
                l.extend([r.first().index() as i64, r.last().index() as i64, r.rest().len() as i64]);
                if n > 1 {
                    l.push(r.rest().first().index() as i64);
                } else {
                    l.push(a as i64 + 1);
                }
            } else {
                l.extend([-1, -1, -1, -1]);
            }
            l.extend(r.iter().map(|i| i.index() as i64));
            let back: Vec<i64> = r.iter().rev().map(|i| i.index() as i64).collect();
            ops.push(Op("range", vec![a as i64, n as i64], l));
            ops.push(Op("rangeback", vec![a as i64, n as i64], back));
        }
        _ => {
            let i = num(rng, u32::MAX as usize - 2).min(i32::MAX as usize - 1).max(1);
            let x = Block::new(i);
            ops.push(Op("index", vec![i as i64], vec![
                x.index() as i64, b(x.is_valid()), b(x.is_invalid()), x.next().index() as i64, x.prev().index() as i64,
                b(Block::invalid().is_invalid()), b(x.raw_u32() as usize == i),
            ]));
            // Two values are equal only if they were made the same way.
            let k = *rng.pick(&[0usize, 1, 2]);
            let w = VReg::new(if rng.pct(30) { vn } else { num(rng, VReg::MAX - 1) }, CL[k]);
            let q = PReg::new(if rng.pct(30) { hw } else { num(rng, PReg::MAX) }, CL[k]);
            ops.push(Op("same", vec![vn as i64, c as i64, w.vreg() as i64, k as i64, hw as i64, q.hw_enc() as i64], vec![
                b(v == w), b(p == q), b(Allocation::reg(p) == Allocation::reg(q)),
                b(Operand::reg_use(v) == Operand::reg_use(w)), b(Operand::any_def(v) == Operand::any_def(w)),
                b(Allocation::stack(SpillSlot::new(hw)) == Allocation::stack(SpillSlot::new(q.hw_enc()))),
            ]));
        }
    }
}

pub fn run(seed: u64, shard: usize, _shards: usize, secs: u64, want: usize, path: &str) {
    let t0 = std::time::Instant::now();
    let mut em = Emit::new(want, 8);
    let mut i = 0u64;
    while t0.elapsed().as_secs() < secs && (i < 6400 * want as u64) {
        i += 1;
        let sd = seed.wrapping_mul(1_000_003).wrapping_add((shard as u64) << 40) + i;
        let mut rng = Rng::new(sd);
        let mut ops = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| {
            for _ in 0..200 {
                one(&mut rng, &mut ops);
            }
        }));
        let msg = r.err().map(panic_msg);
        em.add(msg.as_ref().map(|_| "panic"), i as usize <= want, || rec(&format!("vals:{sd}"), "vals", 0, &ops, msg.as_deref()));
        if i as usize >= want {
            break;
        }
    }
    em.finish(path);
}
