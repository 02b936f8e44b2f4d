//! Parallel moves: the resolver and the scratch resolver on enumerated and
//! random problems.
use crate::emit::Emit;
use ravharness::json::J;
use ravharness::record::panic_msg;
use ravharness::rng::Rng;
use regalloc2::verif::*;
use regalloc2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Prob {
    pub st: Vec<bool>,
    pub alloc: Vec<Allocation>,
    pub par: Vec<(usize, usize, u32)>,
    /// Number of ordinary locations; the rest is free registers and slots.
    pub n: usize,
    pub free: Vec<usize>,
    pub slots: Vec<usize>,
    pub borrowed: usize,
    pub full: bool,
}

/// Locations: `kind` 'r' register, 'f' fixed stack slot, 's' spill slot.
pub fn prob(rng: &mut Rng, kinds: &[u8], nfree: usize, full: bool) -> Prob {
    let class = [RegClass::Int, RegClass::Float, RegClass::Vector][rng.below(3)];
    let mut p = Prob { st: vec![], alloc: vec![], par: vec![], n: kinds.len(), free: vec![], slots: vec![], borrowed: 0, full };
    let (mut regs, mut slots): (Vec<usize>, Vec<usize>) = ((0..63).collect(), (0..80).collect());
    rng.shuffle(&mut regs);
    rng.shuffle(&mut slots);
    let reg = |i: usize| Allocation::reg(PReg::new(i, class));
    let slot = |i: usize| Allocation::stack(SpillSlot::new(i));
    for &k in kinds {
        match k {
            b'r' => p.alloc.push(reg(regs.pop().unwrap())),
            b'f' => p.alloc.push(reg(regs.pop().unwrap())),
            _ => p.alloc.push(slot(slots.pop().unwrap())),
        }
        p.st.push(k != b'r');
    }
    for _ in 0..nfree {
        p.alloc.push(reg(regs.pop().unwrap()));
        p.st.push(false);
        p.free.push(p.alloc.len());
    }
    for _ in 0..2 {
        p.alloc.push(slot(slots.pop().unwrap()));
        p.st.push(true);
        p.slots.push(p.alloc.len());
    }
    let rs: Vec<usize> = (1..=kinds.len()).filter(|&i| kinds[i - 1] == b'r').collect();
    if rs.is_empty() {
        // a register that plays no role in the problem, but is in use
        p.alloc.push(reg(regs.pop().unwrap()));
        p.st.push(false);
        p.borrowed = p.alloc.len();
    } else {
        p.borrowed = rs[rng.below(rs.len())];
    }
    p
}

fn loc(p: &Prob, a: Allocation) -> usize {
    p.alloc.iter().position(|x| *x == a).map_or(0, |i| i + 1)
}

pub fn solve(p: &Prob) -> Result<Vec<(usize, usize, u32)>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut pm: ParallelMoves<u32> = ParallelMoves::new();
        for &(s, d, t) in &p.par {
            pm.add(p.alloc[s - 1], p.alloc[d - 1], t);
        }
        let r = pm.resolve();
        let seq = if p.full {
            let (mut f, mut s) = (p.free.iter(), p.slots.iter());
            let res = MoveAndScratchResolver {
                find_free_reg: || f.next().map(|&i| p.alloc[i - 1]),
                get_stackslot: || p.alloc[*s.next().expect("a third stack slot") - 1],
                is_stack_alloc: |a: Allocation| {
                    let i = loc(p, a);
                    if i == 0 { a.is_stack() } else { p.st[i - 1] }
                },
                borrowed_scratch_reg: p.alloc[p.borrowed - 1].as_reg().unwrap(),
            };
            res.compute(r)
        } else {
            // a free register or a fresh slot as the scratch
            let i = *p.free.first().unwrap_or(&p.slots[0]);
            if r.needs_scratch() {
                r.with_scratch(p.alloc[i - 1])
            } else {
                r.without_scratch().unwrap()
            }
        };
        seq.iter().map(|&(s, d, t)| (loc(p, s), loc(p, d), t)).collect()
    }))
    .map_err(panic_msg)
}

/// The quick look.
fn suspicious(p: &Prob, seq: &[(usize, usize, u32)]) -> Option<&'static str> {
    let n = p.alloc.len();
    let mut st: Vec<usize> = (0..=n).collect();
    let mut lab = vec![false; n + 1];
    let mut src: Vec<usize> = vec![0; n + 1];
    let mut want = vec![0u32; n + 1];
    for &(s, d, t) in &p.par {
        src[d] = s;
        want[d] = t;
    }
    for &(s, d, t) in seq {
        if s == 0 || d == 0 {
            return Some("nowhere");
        }
        if p.full && p.st[s - 1] && p.st[d - 1] {
            return Some("stack-to-stack");
        }
        st[d] = st[s];
        lab[d] |= src[d] != 0 && st[s] == src[d] && t == want[d];
    }
    for l in 1..=n {
        if src[l] != 0 {
            if st[l] != src[l] {
                return Some("dest");
            }
            if src[l] != l && !lab[l] {
                return Some("label");
            }
        } else if !p.free.contains(&l) && !p.slots.contains(&l) && st[l] != l {
            return Some("destroyed");
        }
    }
    None
}

fn rec(id: &str, p: &Prob, r: &Result<Vec<(usize, usize, u32)>, String>) -> String {
    let mut j = J::new();
    j.ob();
    j.ks("id", id);
    j.ki("n", p.alloc.len() as i64);
    j.k("st");
    j.ab();
    for &s in &p.st {
        j.b(s);
    }
    j.ae();
    j.kb("full", p.full);
    j.karr("free", p.free.iter().chain(&p.slots).map(|&x| x as i64));
    let mut tri = |k: &str, v: &[(usize, usize, u32)]| {
        j.k(k);
        j.ab();
        for &(a, b, t) in v {
            j.arr([a as i64, b as i64, t as i64]);
        }
        j.ae();
    };
    tri("par", &p.par);
    tri("seq", r.as_ref().map_or(&[], |v| &v[..]));
    j.ks("out", if r.is_ok() { "ok" } else { "panic" });
    j.ks("msg", r.as_ref().err().map_or("", |s| s));
    j.ks("allocs", &format!("{:?} borrowed {}", p.alloc, p.borrowed));
    j.oe();
    j.0
}

pub fn run(full: bool, seed: u64, shard: usize, shards: usize, secs: u64, want: usize, path: &str) {
    let start = std::time::Instant::now();
    let mut e = Emit::new(want, 8);
    let name = if full { "full" } else { "par" };
    let mut go = |e: &mut Emit, p: &Prob, id: String, keep: bool| {
        let r = solve(p);
        let s = match &r {
            Err(_) => Some("panic"),
            Ok(q) => suspicious(p, q),
        };
        e.add(s, keep, || rec(&id, p, &r));
    };
    // every parallel move over up to 5 locations (6 if time permits), every
    // mix of kinds, 0 to 2 free registers
    let mut count = 0u64;
    'all: for n in 1..=6usize {
        let kinds = if full { 1usize << n } else { 2 };
        for km in 0..kinds {
            for code in 0..(n as u64 + 1).pow(n as u32) {
                for nfree in 0..3usize {
                    count += 1;
                    if count % shards as u64 != shard as u64 {
                        continue;
                    }
                    if count % 1024 == 0 && start.elapsed().as_secs() * 10 > secs * 6 {
                        break 'all;
                    }
                    let mut rng = Rng::new(seed ^ (count << 8));
                    let ks: Vec<u8> = (0..n)
                        .map(|i| if full && km >> i & 1 == 1 || !full && km == 1 && rng.pct(50) {
                            if rng.pct(30) { b'f' } else { b's' }
                        } else { b'r' })
                        .collect();
                    let mut p = prob(&mut rng, &ks, nfree, full);
                    // the order of the allocations is part of the problem:
                    // keep the generated one
                    let mut c = code;
                    for d in 1..=n {
                        let s = (c % (n as u64 + 1)) as usize;
                        c /= n as u64 + 1;
                        if s != 0 {
                            p.par.push((s, d, 10 + d as u32));
                        }
                    }
                    if rng.pct(20) && !p.par.is_empty() {
                        let x = p.par[rng.below(p.par.len())];
                        p.par.push(x);
                    }
                    rng.shuffle(&mut p.par);
                    let keep = n <= 2 || n == 3 && !full;
                    go(&mut e, &p, format!("{name}:{n}:{km}:{code}:{nfree}"), keep);
                }
            }
        }
    }
    // bigger ones at random, with many cycles, chains and fans
    let mut i = 0u64;
    while start.elapsed().as_secs() < secs {
        for _ in 0..256 {
            i += 1;
            let s = seed.wrapping_mul(1_000_003).wrapping_add((shard as u64) << 40) + i;
            let mut rng = Rng::new(s);
            let n = if rng.pct(2) { rng.range(23, 50) } else { rng.range(4, 22) };
            let pst = *rng.pick(&[0, 20, 50, 80, 100]);
            let ks: Vec<u8> = (0..n).map(|_| if full && rng.pct(pst) { if rng.pct(20) { b'f' } else { b's' } } else { b'r' }).collect();
            let nfree = *rng.pick(&[0, 0, 1, 2, 5]);
            let mut p = prob(&mut rng, &ks, nfree, full);
            let mut perm: Vec<usize> = (1..=n).collect();
            rng.shuffle(&mut perm);
            let fan = *rng.pick(&[0, 10, 30, 100]);
            let dens = *rng.pick(&[30, 70, 95, 100]);
            for d in 1..=n {
                if rng.pct(dens) {
                    let s = if rng.pct(fan) { rng.range(1, n) } else { perm[d - 1] };
                    p.par.push((s, d, 10 + d as u32));
                }
            }
            for _ in 0..rng.below(3) {
                if !p.par.is_empty() {
                    let x = p.par[rng.below(p.par.len())];
                    p.par.push(x);
                }
            }
            rng.shuffle(&mut p.par);
            go(&mut e, &p, format!("{name}:rnd:{s}"), false);
        }
    }
    e.finish(path);
}
