//! Sets and lists of registers and indices under arbitrary operation
//! sequences.  Every record is a history: the operations with the answers
//! the real object gave.
use crate::emit::Emit;
use ravharness::json::J;
use ravharness::record::panic_msg;
use ravharness::rng::Rng;
use regalloc2::indexset::IndexSet;
use regalloc2::verif::*;
use regalloc2::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One operation: name, numbers, a list, and what the real object answered.
pub struct Op(pub &'static str, pub Vec<i64>, pub Vec<i64>);

pub fn rec(id: &str, kind: &str, cap: usize, ops: &[Op], panic: Option<&str>) -> String {
    let mut j = J::new();
    j.ob();
    j.ks("id", id);
    j.ks("kind", kind);
    j.ki("cap", cap as i64);
    j.ks("out", if panic.is_some() { "panic" } else { "ok" });
    j.ks("msg", panic.unwrap_or(""));
    j.k("ops");
    j.ab();
    for o in ops {
        j.ab();
        j.s(o.0);
        j.arr(o.1.iter().copied());
        j.arr(o.2.iter().copied());
        j.ae();
    }
    j.ae();
    j.oe();
    j.0
}

/// Runs a history; `f` returns whether every answer was as a plain set gives it.
fn case(em: &mut Emit, id: String, kind: &str, cap: usize, f: impl FnOnce(&mut Vec<Op>) -> bool) {
    let mut ops = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ops)));
    let (bad, msg) = match r {
        Ok(true) => (None, None),
        Ok(false) => (Some("answer"), None),
        Err(p) => (Some("panic"), Some(panic_msg(p))),
    };
    em.add(bad, false, || rec(&id, kind, cap, &ops, msg.as_deref()));
}

#[cfg(feature = "sets")]
fn iset(rng: &mut Rng, ops: &mut Vec<Op>) -> bool {
    // Few or many distinct 64-bit words, around the capacity of the small mode.
    let words = *rng.pick(&[1usize, 3, 11, 12, 13, 14, 20, 40, 100]);
    let top = *rng.pick(&[1000, 1000, 1000, 70_000, 1 << 24]);
    let base: Vec<usize> = (0..words).map(|k| if rng.pct(50) { k } else { rng.below(top) } * 64).collect();
    let len = if rng.pct(3) { 300 } else { rng.range(5, 70) };
    let mut s = [IndexSet::new(), IndexSet::new()];
    let mut m = [BTreeSet::new(), BTreeSet::new()];
    let pclear = *rng.pick(&[5, 30, 50]);
    let mut ok = true;
    for _ in 0..len {
        let w = rng.below(2);
        let i = rng.pick(&base) + *rng.pick(&[0, 1, 31, 62, 63]);
        match rng.below(20) {
            0..=9 => {
                let v = !rng.pct(pclear);
                s[w].set(i, v);
                if v {
                    m[w].insert(i);
                } else {
                    m[w].remove(&i);
                }
                ops.push(Op("set", vec![w as i64 + 1, i as i64, v as i64], vec![]));
            }
            10 | 11 | 12 => {
                let r = s[w].get(i);
                ok &= r == m[w].contains(&i);
                ops.push(Op("get", vec![w as i64 + 1, i as i64, r as i64], vec![]));
            }
            13 | 14 => {
                let o = s[1 - w].clone();
                let r = s[w].union_with(&o);
                let before = m[w].len();
                let om = m[1 - w].clone();
                m[w].extend(om);
                ok &= r == (m[w].len() > before);
                ops.push(Op("union", vec![w as i64 + 1, r as i64], vec![]));
            }
            15 => {
                let o = s[1 - w].clone();
                s[w].assign(&o);
                m[w] = m[1 - w].clone();
                ops.push(Op("assign", vec![w as i64 + 1], vec![]));
            }
            16 => {
                // Clear everything the set says it has, one by one.
                if rng.pct(30) {
                    let l: Vec<usize> = s[w].iter().collect();
                    for i in l {
                        s[w].set(i, false);
                        m[w].remove(&i);
                        ops.push(Op("set", vec![w as i64 + 1, i as i64, 0], vec![]));
                    }
                }
            }
            17 => {
                let r = index_set_is_empty(&s[w]);
                ok &= r == m[w].is_empty();
                ops.push(Op("emp", vec![w as i64 + 1, r as i64], vec![]));
            }
            _ => {
                let mut l: Vec<i64> = s[w].iter().map(|i| i as i64).collect();
                l.sort();
                ok &= l == m[w].iter().map(|&i| i as i64).collect::<Vec<_>>();
                ops.push(Op("iter", vec![w as i64 + 1], l));
            }
        }
    }
    for w in 0..2 {
        let r = index_set_is_empty(&s[w]);
        ok &= r == m[w].is_empty();
        ops.push(Op("emp", vec![w as i64 + 1, r as i64], vec![]));
        let mut l: Vec<i64> = s[w].iter().map(|i| i as i64).collect();
        l.sort();
        ok &= l == m[w].iter().map(|&i| i as i64).collect::<Vec<_>>();
        ops.push(Op("iter", vec![w as i64 + 1], l));
    }
    ok
}

fn preg(i: usize) -> PReg {
    PReg::new(i % 64, [RegClass::Int, RegClass::Float, RegClass::Vector][i / 64])
}

#[cfg(feature = "pregs")]
fn pset(rng: &mut Rng, ops: &mut Vec<Op>) -> bool {
    let pool: Vec<usize> = match rng.below(3) {
        0 => vec![0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 190, 191],
        1 => (0..6).map(|_| rng.below(192)).collect(),
        _ => (0..192).collect(),
    };
    let mut s = [PRegSet::empty(), PRegSet::empty()];
    let mut m: [BTreeSet<usize>; 2] = Default::default();
    let mut ok = true;
    let l = rng.range(4, 40);
    for _ in 0..l {
        let w = rng.below(2);
        let w1 = w as i64 + 1;
        let i = *rng.pick(&pool);
        let real = m[w].iter().all(|&x| x < 192);
        match rng.below(24) {
            0..=3 => {
                s[w].add(preg(i));
                m[w].insert(i);
                ops.push(Op("add", vec![w1, i as i64], vec![]));
            }
            4 => {
                s[w] = s[w].with(preg(i));
                m[w].insert(i);
                ops.push(Op("add", vec![w1, i as i64], vec![]));
            }
            5 | 6 => {
                s[w].remove(preg(i));
                m[w].remove(&i);
                ops.push(Op("rem", vec![w1, i as i64], vec![]));
            }
            7 | 8 | 9 => {
                let r = s[w].contains(preg(i));
                ok &= r == m[w].contains(&i);
                ops.push(Op("has", vec![w1, i as i64, r as i64], vec![]));
            }
            10 => {
                let o = s[1 - w];
                if rng.pct(50) {
                    s[w].union_from(o);
                } else {
                    s[w] = s[w] | o;
                }
                let om = m[1 - w].clone();
                m[w].extend(om);
                ops.push(Op("uni", vec![w1], vec![]));
            }
            11 => {
                let o = s[1 - w];
                if rng.pct(50) {
                    s[w].intersect_from(o);
                } else {
                    s[w] = s[w] & o;
                }
                m[w] = m[w].intersection(&m[1 - w]).copied().collect();
                ops.push(Op("int", vec![w1], vec![]));
            }
            12 => {
                s[w] = s[w].invert();
                m[w] = (0..256).filter(|x| !m[w].contains(x)).collect();
                ops.push(Op("inv", vec![w1], vec![]));
            }
            13 => {
                s[w].add_up_to(preg(i));
                m[w].extend(0..i);
                ops.push(Op("upto", vec![w1, i as i64], vec![]));
            }
            14 => {
                let c = rng.below(3);
                let r = s[w].is_empty([RegClass::Int, RegClass::Float, RegClass::Vector][c]);
                ok &= r == !m[w].iter().any(|x| x / 64 == c);
                ops.push(Op("emp", vec![w1, c as i64, r as i64], vec![]));
            }
            15 | 16 if real => {
                let r = s[w].len();
                ok &= r as usize == m[w].len();
                ops.push(Op("len", vec![w1, r as i64], vec![]));
            }
            17 if m[w].iter().map(|x| x / 64).collect::<BTreeSet<_>>().len() <= 1 && real => {
                let r = s[w].max_preg();
                let r = r.map_or(-1, |p| p.index() as i64);
                ok &= r == m[w].iter().next_back().map_or(-1, |&x| x as i64);
                ops.push(Op("max", vec![w1, r], vec![]));
            }
            18 => {
                let r = s[0] == s[1];
                ok &= r == (m[0] == m[1]);
                ops.push(Op("eq", vec![r as i64], vec![]));
            }
            19 => {
                let n = rng.below(6);
                let l: Vec<usize> = (0..n).map(|_| *rng.pick(&pool)).collect();
                s[w] = l.iter().map(|&i| preg(i)).collect();
                m[w] = l.iter().copied().collect();
                ops.push(Op("from", vec![w1], l.iter().map(|&i| i as i64).collect()));
            }
            20 => {
                // The allocatable registers of an environment.
                let pick = |rng: &mut Rng, c: usize| -> Vec<usize> {
                    (0..rng.below(4)).map(|_| rng.below(64) + 64 * c).collect()
                };
                let mk = |l: &Vec<usize>| l.iter().map(|&i| preg(i)).collect::<PRegSet>();
                let p: Vec<Vec<usize>> = (0..3).map(|c| pick(rng, c)).collect();
                let n: Vec<Vec<usize>> = (0..3).map(|c| pick(rng, c)).collect();
                let env = MachineEnv {
                    preferred_regs_by_class: [mk(&p[0]), mk(&p[1]), mk(&p[2])],
                    non_preferred_regs_by_class: [mk(&n[0]), mk(&n[1]), mk(&n[2])],
                    scratch_by_class: [Some(preg(5)), None, None],
                    fixed_stack_slots: vec![preg(7), preg(70)],
                };
                s[w] = PRegSet::from(&env);
                let l: Vec<usize> = p.into_iter().chain(n).flatten().collect();
                m[w] = l.iter().copied().collect();
                ops.push(Op("from", vec![w1], l.iter().map(|&i| i as i64).collect()));
            }
            _ if real => {
                let mut l: Vec<i64> = s[w].into_iter().map(|p| p.index() as i64).collect();
                l.sort();
                ok &= l == m[w].iter().map(|&i| i as i64).collect::<Vec<_>>();
                ops.push(Op("iter", vec![w1], l));
            }
            _ => {
                s[w] = s[w] & s[1 - w];
                m[w] = m[w].intersection(&m[1 - w]).copied().collect();
                ops.push(Op("int", vec![w1], vec![]));
            }
        }
    }
    ok
}

#[cfg(feature = "lists")]
fn lru(rng: &mut Rng, ops: &mut Vec<Op>) -> bool {
    let c = rng.below(3);
    let cl = [RegClass::Int, RegClass::Float, RegClass::Vector][c];
    let n = *rng.pick(&[1usize, 2, 3, 4, 5, 8, 20, 64]);
    let mut hw: Vec<usize> = (0..64).collect();
    if rng.pct(60) {
        rng.shuffle(&mut hw);
    }
    hw.truncate(n);
    let set: PRegSet = hw.iter().map(|&h| PReg::new(h, cl)).collect();
    ops.push(Op("new", vec![], hw.iter().map(|&h| h as i64).collect()));
    let mut l = Lru::new(cl, &set);
    // Registers that were used, most recent last.
    let mut used: Vec<usize> = vec![];
    let mut ok = !l.is_empty();
    let older = |used: &Vec<usize>, among: &Vec<usize>, got: Option<usize>| -> bool {
        match got {
            None => among.is_empty(),
            Some(g) => {
                let key = |x: usize| used.iter().position(|&u| u == x).map_or(0, |p| p + 1);
                among.contains(&g) && among.iter().all(|&x| key(g) <= key(x))
            }
        }
    };
    for _ in 0..if rng.pct(3) { 300 } else { rng.range(3, 50) } {
        match rng.below(10) {
            0..=4 => {
                let h = *rng.pick(&hw);
                l.poke(PReg::new(h, cl));
                used.retain(|&x| x != h);
                used.push(h);
                ops.push(Op("poke", vec![h as i64], vec![]));
            }
            5 | 6 => {
                let p = l.pop();
                ok &= p.class() == cl && older(&used, &hw, Some(p.hw_enc()));
                ops.push(Op("last", vec![p.hw_enc() as i64, (p.class() == cl) as i64], hw.iter().map(|&h| h as i64).collect()));
            }
            _ => {
                let from: Vec<usize> = (0..64).filter(|_| rng.pct(30)).collect();
                let fs: PRegSet = from.iter().map(|&h| PReg::new(h, cl)).collect();
                let other: PRegSet = (0..64).map(|h| PReg::new(h, [RegClass::Float, RegClass::Vector, RegClass::Int][c])).collect();
                let p = if rng.pct(50) { l.last(fs | other) } else { l.last_satisfying(|p| from.contains(&p.hw_enc())) };
                let among: Vec<usize> = from.iter().copied().filter(|x| hw.contains(x)).collect();
                ok &= older(&used, &among, p.map(|p| p.hw_enc())) && p.map_or(true, |p| p.class() == cl);
                ops.push(Op("last", vec![p.map_or(-1, |p| p.hw_enc() as i64), p.map_or(true, |p| p.class() == cl) as i64],
                    from.iter().map(|&h| h as i64).collect()));
            }
        }
    }
    ok
}

#[cfg(feature = "lists")]
fn vset(rng: &mut Rng, ops: &mut Vec<Op>) -> bool {
    let n = *rng.pick(&[1usize, 2, 3, 6, 30, 300]);
    let cls = [RegClass::Int, RegClass::Float, RegClass::Vector];
    let mut s = VRegSet::with_capacity(n);
    let mut m: BTreeSet<usize> = BTreeSet::new();
    let mut ok = true;
    for _ in 0..if rng.pct(3) { 300 } else { rng.range(3, 40) } {
        let v = rng.below(n);
        match rng.below(8) {
            0..=3 => {
                if m.insert(v) {
                    s.insert(VReg::new(v, cls[v % 3]));
                    ops.push(Op("ins", vec![v as i64], vec![]));
                } else {
                    m.remove(&v);
                    s.remove(v);
                    ops.push(Op("rem", vec![v as i64], vec![]));
                }
            }
            4 => {
                let r = s.is_empty();
                ok &= r == m.is_empty();
                ops.push(Op("emp", vec![r as i64], vec![]));
            }
            _ => {
                let l: Vec<VReg> = s.iter().take(1000).collect();
                ok &= l.len() == m.len() && l.iter().all(|v| m.contains(&v.vreg()) && v.class() == cls[v.vreg() % 3]);
                ok &= l.iter().map(|v| v.vreg()).collect::<BTreeSet<_>>() == m;
                let cl = l.iter().all(|v| v.class() == cls[v.vreg() % 3]);
                ops.push(Op("iter", vec![cl as i64], l.iter().map(|v| v.vreg() as i64).collect()));
            }
        }
    }
    ok
}

/// Register traversal orders: everything a history of one operation.
#[cfg(feature = "choice")]
fn trav(rng: &mut Rng, ops: &mut Vec<Op>) -> bool {
    let c = rng.below(3);
    let cl = [RegClass::Int, RegClass::Float, RegClass::Vector][c];
    let mut hw: Vec<usize> = (0..63).collect();
    if rng.pct(50) {
        rng.shuffle(&mut hw);
    }
    let n = *rng.pick(&[0usize, 1, 2, 5, 16, 63]);
    let k = rng.below(n + 1);
    let (p, np): (Vec<usize>, Vec<usize>) = (hw[..k].to_vec(), hw[k..n].to_vec());
    let mk = |l: &[usize]| l.iter().map(|&h| PReg::new(h, cl)).collect::<PRegSet>();
    let mut env = MachineEnv {
        preferred_regs_by_class: Default::default(),
        non_preferred_regs_by_class: Default::default(),
        scratch_by_class: [None; 3],
        fixed_stack_slots: vec![],
    };
    for x in 0..3 {
        let xl = [RegClass::Int, RegClass::Float, RegClass::Vector][x];
        env.preferred_regs_by_class[x] = (0..4).map(|h| PReg::new(h, xl)).collect();
    }
    env.preferred_regs_by_class[c] = mk(&p);
    env.non_preferred_regs_by_class[c] = mk(&np);
    let any = |rng: &mut Rng| {
        let h = if n > 0 && rng.pct(80) { hw[rng.below(n)] } else { rng.below(63) };
        h
    };
    let fixed = if rng.pct(10) { Some(any(rng)) } else { None };
    let hint = if rng.pct(60) { Some(any(rng)) } else { None };
    let limit = if rng.pct(40) { Some(1usize << rng.below(7)) } else { None };
    let offset = *rng.pick(&[0usize, 1, 5, 62, 63, 64, 126, 1000]) + rng.below(3) * rng.below(64);
    let mut it = RegTraversalIter::new(&env, cl, fixed.map(|h| PReg::new(h, cl)), hint.map(|h| PReg::new(h, cl)), offset, limit);
    let mut got = vec![];
    while let Some(p) = it.next() {
        got.push(if p.class() == cl { p.hw_enc() as i64 } else { 1000 + p.index() as i64 });
        if got.len() > 200 {
            break;
        }
    }
    let o = |x: Option<usize>| x.map_or(-1, |x| x as i64);
    ops.push(Op("pref", vec![], p.iter().map(|&h| h as i64).collect()));
    ops.push(Op("nonpref", vec![], np.iter().map(|&h| h as i64).collect()));
    ops.push(Op("trav", vec![o(fixed), o(hint), o(limit), offset as i64], got.clone()));
    let lim = limit.unwrap_or(1000) as i64;
    if let Some(f) = fixed {
        return got == vec![f as i64];
    }
    let mut g = got.clone();
    if let Some(h) = hint {
        if (h as i64) < lim {
            if g.first() != Some(&(h as i64)) {
                return false;
            }
            g.remove(0);
        }
    }
    let f = |l: &[usize]| l.iter().map(|&h| h as i64).filter(|&h| h < lim && Some(h as usize) != hint).collect::<BTreeSet<_>>();
    let (a, b) = (f(&p), f(&np));
    g.len() == a.len() + b.len()
        && g[..a.len()].iter().copied().collect::<BTreeSet<_>>() == a
        && g[a.len()..].iter().copied().collect::<BTreeSet<_>>() == b
}

/// Merging requirements.
#[cfg(feature = "choice")]
fn reqm(rng: &mut Rng, ops: &mut Vec<Op>) -> bool {
    use Requirement as R;
    let cl = [RegClass::Int, RegClass::Float, RegClass::Vector][rng.below(3)];
    // Registers below 40 are ordinary ones, the others are fixed stack slots.
    let one = |rng: &mut Rng| -> (R, [i64; 2]) {
        let r = *rng.pick(&[0usize, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 39]);
        let s = rng.range(40, 44);
        let l = 1usize << rng.below(7);
        match rng.below(6) {
            0 => (R::Any, [0, 0]),
            1 => (R::Register, [1, 0]),
            2 => (R::FixedReg(PReg::new(r, cl)), [2, r as i64]),
            3 => (R::Limit(l), [3, l as i64]),
            4 => (R::Stack, [4, 0]),
            _ => (R::FixedStack(PReg::new(s, cl)), [5, s as i64]),
        }
    };
    let mut ok = true;
    for _ in 0..12 {
        let (a, x) = one(rng);
        let (b, y) = one(rng);
        let r = a.merge(b);
        let z = match r {
            Err(_) => [-1, 0],
            Ok(R::Any) => [0, 0],
            Ok(R::Register) => [1, 0],
            Ok(R::FixedReg(p)) => [2, if p.class() == cl { p.hw_enc() as i64 } else { -9 }],
            Ok(R::Limit(l)) => [3, l as i64],
            Ok(R::Stack) => [4, 0],
            Ok(R::FixedStack(p)) => [5, if p.class() == cl { p.hw_enc() as i64 } else { -9 }],
        };
        let den = |x: [i64; 2]| -> BTreeSet<i64> {
            (0..100)
                .filter(|&l| match x[0] {
                    0 => true,
                    1 => l < 40,
                    2 => l == x[1],
                    3 => l < 40 && l < x[1],
                    4 => l >= 40,
                    5 => l == x[1],
                    _ => false,
                })
                .collect()
        };
        ok &= den(z) == den(x).intersection(&den(y)).copied().collect();
        ok &= a.is_stack() == (x[0] >= 4) && a.is_reg() == (1..=3).contains(&x[0]);
        ops.push(Op("merge", vec![x[0], x[1], y[0], y[1], z[0], z[1], a.is_reg() as i64, a.is_stack() as i64], vec![]));
    }
    ok
}

pub fn run(kinds: &[&str], seed: u64, shard: usize, _shards: usize, secs: u64, want: usize, path: &str) {
    let t0 = std::time::Instant::now();
    let mut em = Emit::new(want, 8);
    let mut i = 0u64;
    while t0.elapsed().as_secs() < secs {
        for _ in 0..64 {
            i += 1;
            let sd = seed.wrapping_mul(1_000_003).wrapping_add((shard as u64) << 40) + i;
            let mut rng = Rng::new(sd);
            let k = kinds[(i % kinds.len() as u64) as usize];
            let id = format!("{k}:{sd}");
            let (kind, f): (&str, fn(&mut Rng, &mut Vec<Op>) -> bool) = match k {
                #[cfg(feature = "sets")]
                "iset" => ("iset", iset),
                #[cfg(feature = "pregs")]
                "pset" => ("pset", pset),
                #[cfg(feature = "lists")]
                "lru" => ("lru", lru),
                #[cfg(feature = "lists")]
                "vset" => ("vset", vset),
                #[cfg(feature = "choice")]
                "trav" => ("trav", trav),
                #[cfg(feature = "choice")]
                "reqm" => ("reqm", reqm),
                x => panic!("{x}"),
            };
            case(&mut em, id, kind, 0, |ops| f(&mut rng, ops));
        }
    }
    em.finish(path);
}
