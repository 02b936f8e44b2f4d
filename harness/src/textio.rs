//! A plain text form of a case, for committed regression cases and replays.
use crate::func::*;
use crate::gen::*;
use regalloc2::*;
use std::fmt::Write;

const CL: [char; 3] = ['i', 'f', 'v'];

fn vr(v: VReg) -> String {
    format!("{}{}", v.vreg(), CL[v.class() as usize])
}
fn pr(p: PReg) -> String {
    format!("{}{}", p.hw_enc(), CL[p.class() as usize])
}
fn num_class(s: &str) -> (usize, RegClass) {
    let (n, c) = s.split_at(s.len() - 1);
    let c = match c {
        "i" => RegClass::Int,
        "f" => RegClass::Float,
        "v" => RegClass::Vector,
        _ => panic!("bad class in {s}"),
    };
    (n.parse().unwrap(), c)
}
fn rd_v(s: &str) -> VReg {
    let (n, c) = num_class(s);
    VReg::new(n, c)
}
fn rd_p(s: &str) -> PReg {
    let (n, c) = num_class(s);
    PReg::new(n, c)
}
fn pset(s: &PRegSet) -> String {
    s.into_iter().map(pr).collect::<Vec<_>>().join(" ")
}

pub fn dump(id: &str, c: &Case) -> String {
    let mut o = String::new();
    let f = &c.f;
    let alg = if c.knobs.target == Target::Ion { "ion" } else { "fast" };
    writeln!(o, "case {id} {alg}").unwrap();
    for k in 0..3 {
        writeln!(o, "pref {}", pset(&c.env.preferred_regs_by_class[k])).unwrap();
        writeln!(o, "nonpref {}", pset(&c.env.non_preferred_regs_by_class[k])).unwrap();
        if let Some(s) = c.env.scratch_by_class[k] {
            writeln!(o, "scratch {}", pr(s)).unwrap();
        }
    }
    let fss: Vec<_> = c.env.fixed_stack_slots.iter().map(|&p| pr(p)).collect();
    writeln!(o, "fss {}", fss.join(" ")).unwrap();
    writeln!(
        o,
        "func {} {} {} {} {} {} {}",
        f.entry, f.num_vregs, f.slot_size[0], f.slot_size[1], f.slot_size[2], f.named_last as u8, f.multi_defs as u8
    )
    .unwrap();
    if c.knobs.stretch != (1, 0) {
        writeln!(o, "far {} {}", c.knobs.stretch.0, c.knobs.stretch.1).unwrap();
    }
    for b in &f.blocks {
        let ps: Vec<_> = b.params.iter().map(|&v| vr(v)).collect();
        writeln!(o, "block {}", ps.join(" ")).unwrap();
        for i in &b.insts {
            let mut l = String::from(if i.ret {
                "ret"
            } else if i.branch {
                "br"
            } else {
                "op"
            });
            for op in &i.ops {
                if let Some(p) = op.as_fixed_nonallocatable() {
                    write!(l, " na:{}", pr(p)).unwrap();
                    continue;
                }
                let cc = match op.constraint() {
                    OperandConstraint::Any => "any".to_string(),
                    OperandConstraint::Reg => "reg".into(),
                    OperandConstraint::Stack => "stack".into(),
                    OperandConstraint::FixedReg(p) => format!("fix={}", pr(p)),
                    OperandConstraint::Reuse(j) => format!("reuse={j}"),
                    OperandConstraint::Limit(n) => format!("limit={n}"),
                };
                let k = if op.kind() == OperandKind::Use { 'u' } else { 'd' };
                let p = if op.pos() == OperandPos::Early { 'e' } else { 'l' };
                write!(l, " {}:{k}{p}:{cc}", vr(op.vreg())).unwrap();
            }
            for p in i.clob.into_iter() {
                write!(l, " cl:{}", pr(p)).unwrap();
            }
            writeln!(o, "{l}").unwrap();
        }
        for (k, s) in b.succs.iter().enumerate() {
            let a: Vec<_> = b.args.get(k).map_or(vec![], |a| a.iter().map(|&v| vr(v)).collect());
            writeln!(o, "succ {} {}", s.index(), a.join(" ")).unwrap();
        }
    }
    for (v, a, b, l) in &f.debug {
        writeln!(o, "debug {} {} {} {}", vr(*v), a.index(), b.index(), l).unwrap();
    }
    writeln!(o, "end").unwrap();
    o
}

/// Parse every case of a file.
pub fn load(text: &str) -> Vec<(String, Case)> {
    let mut out = vec![];
    let mut cur: Option<(String, Case)> = None;
    let mut ncls = 0;
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        if w[0] == "case" {
            let t = if w[2] == "ion" { Target::Ion } else { Target::Fast };
            let mut r = crate::rng::Rng::new(1);
            let k = knobs(&mut r, t, "mix");
            let env = MachineEnv {
                preferred_regs_by_class: [PRegSet::empty(); 3],
                non_preferred_regs_by_class: [PRegSet::empty(); 3],
                scratch_by_class: [None; 3],
                fixed_stack_slots: vec![],
            };
            ncls = 0;
            cur = Some((w[1].to_string(), Case { f: Func::new(), env, knobs: k }));
            continue;
        }
        let Some((_, c)) = cur.as_mut() else { panic!("text before case") };
        match w[0] {
            "pref" => {
                for s in &w[1..] {
                    c.env.preferred_regs_by_class[ncls].add(rd_p(s));
                }
            }
            "nonpref" => {
                for s in &w[1..] {
                    c.env.non_preferred_regs_by_class[ncls].add(rd_p(s));
                }
                ncls += 1;
            }
            "scratch" => c.env.scratch_by_class[rd_p(w[1]).class() as usize] = Some(rd_p(w[1])),
            "fss" => c.env.fixed_stack_slots = w[1..].iter().map(|s| rd_p(s)).collect(),
            "func" => {
                let n: Vec<usize> = w[1..].iter().map(|s| s.parse().unwrap()).collect();
                c.f.entry = n[0];
                c.f.num_vregs = n[1];
                c.f.slot_size = [n[2], n[3], n[4]];
                c.f.named_last = n[5] != 0;
                c.f.multi_defs = n[6] != 0;
            }
            "far" => c.knobs.stretch = (w[1].parse().unwrap(), w[2].parse().unwrap()),
            "block" => c.f.blocks.push(BlockD {
                params: w[1..].iter().map(|s| rd_v(s)).collect(),
                ..Default::default()
            }),
            "op" | "br" | "ret" => {
                let mut i = InstD {
                    branch: w[0] == "br",
                    ret: w[0] == "ret",
                    ..Default::default()
                };
                for s in &w[1..] {
                    let p: Vec<&str> = s.split(':').collect();
                    if p[0] == "na" {
                        i.ops.push(Operand::fixed_nonallocatable(rd_p(p[1])));
                    } else if p[0] == "cl" {
                        i.clob.add(rd_p(p[1]));
                    } else {
                        let kind = if p[1].starts_with('u') { OperandKind::Use } else { OperandKind::Def };
                        let pos = if p[1].ends_with('e') { OperandPos::Early } else { OperandPos::Late };
                        let (n, a) = p[2].split_once('=').unwrap_or((p[2], ""));
                        let cc = match n {
                            "any" => OperandConstraint::Any,
                            "reg" => OperandConstraint::Reg,
                            "stack" => OperandConstraint::Stack,
                            "fix" => OperandConstraint::FixedReg(rd_p(a)),
                            "reuse" => OperandConstraint::Reuse(a.parse().unwrap()),
                            "limit" => OperandConstraint::Limit(a.parse().unwrap()),
                            x => panic!("bad constraint {x}"),
                        };
                        i.ops.push(Operand::new(rd_v(p[0]), cc, kind, pos));
                    }
                }
                c.f.blocks.last_mut().unwrap().insts.push(i);
            }
            "succ" => {
                let b = c.f.blocks.last_mut().unwrap();
                b.succs.push(Block::new(w[1].parse().unwrap()));
                b.args.push(w[2..].iter().map(|s| rd_v(s)).collect());
            }
            "debug" => c.f.debug.push((
                rd_v(w[1]),
                Inst::new(w[2].parse().unwrap()),
                Inst::new(w[3].parse().unwrap()),
                w[4].parse().unwrap(),
            )),
            "end" => {
                let mut x = cur.take().unwrap();
                x.1.f.seal();
                out.push(x);
            }
            x => panic!("unknown line {x}"),
        }
    }
    out
}
