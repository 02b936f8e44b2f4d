//! The redundant-move eliminator under arbitrary event sequences.
use crate::emit::Emit;
use ravharness::json::J;
use ravharness::record::panic_msg;
use ravharness::rng::Rng;
use regalloc2::verif::*;
use regalloc2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug)]
enum Ev {
    Move(usize, usize, Option<usize>),
    Write(usize),
    Join,
}

fn allocs(n: usize, regs: usize) -> Vec<Allocation> {
    (0..n)
        .map(|i| {
            if i < regs {
                Allocation::reg(PReg::new(i * 2, RegClass::Int))
            } else {
                Allocation::stack(SpillSlot::new(i))
            }
        })
        .collect()
}

#[derive(Clone)]
struct St {
    e: RedundantMoveEliminator,
    full: Vec<u32>,
    lean: Vec<u32>,
    next: u32,
}

fn step(s: &mut St, al: &[Allocation], ev: Ev) -> (bool, bool) {
    let mut el = false;
    match ev {
        Ev::Move(a, b, v) => {
            el = s.e.process_move(al[a], al[b], v.map(|v| VReg::new(v, RegClass::Int))).elide;
            s.full[b] = s.full[a];
            if !el {
                s.lean[b] = s.lean[a];
            }
        }
        Ev::Write(a) => {
            s.e.clear_alloc(al[a]);
            s.next += 1;
            s.full[a] = s.next;
            s.lean[a] = s.next;
        }
        Ev::Join => {
            s.e.clear();
            for i in 0..al.len() {
                s.next += 1;
                s.full[i] = s.next;
                s.lean[i] = s.next;
            }
        }
    }
    (el, s.full == s.lean)
}

fn rec(id: &str, al: &[Allocation], evs: &[(Ev, bool)], panic: Option<&str>) -> String {
    let mut j = J::new();
    j.ob();
    j.ks("id", id);
    j.ki("n", al.len() as i64);
    j.ks("out", if panic.is_some() { "panic" } else { "ok" });
    j.ks("msg", panic.unwrap_or(""));
    j.k("ev");
    j.ab();
    for &(e, el) in evs {
        j.ab();
        match e {
            Ev::Move(a, b, v) => {
                j.s("m");
                j.i(a as i64 + 1);
                j.i(b as i64 + 1);
                j.b(el);
                j.i(v.map_or(-1, |v| v as i64));
            }
            Ev::Write(a) => {
                j.s("w");
                j.i(a as i64 + 1);
            }
            Ev::Join => j.s("j"),
        }
        j.ae();
    }
    j.ae();
    j.ks("allocs", &format!("{al:?}"));
    j.oe();
    j.0
}

fn start(n: usize) -> St {
    St { e: Default::default(), full: (0..n as u32).collect(), lean: (0..n as u32).collect(), next: 1000 }
}

fn dfs(em: &mut Emit, s: &St, al: &[Allocation], all: &[Ev], hist: &mut Vec<(Ev, bool)>, depth: usize, first: &dyn Fn(usize) -> bool, stop: std::time::Instant) {
    for (i, &ev) in all.iter().enumerate() {
        if hist.is_empty() && !first(i) || std::time::Instant::now() > stop {
            continue;
        }
        let mut t = s.clone();
        let r = catch_unwind(AssertUnwindSafe(|| step(&mut t, al, ev)));
        let (el, same, pan) = match r {
            Ok((a, b)) => (a, b, None),
            Err(p) => (false, true, Some(panic_msg(p))),
        };
        hist.push((ev, el));
        let bad = if pan.is_some() { Some("panic") } else if !same { Some("stale") } else { None };
        if bad.is_some() || depth == 1 {
            let n = em.ran;
            em.add(bad, false, || rec(&format!("elim:dfs:{n}"), al, hist, pan.as_deref()));
        }
        if bad.is_none() && depth > 1 {
            dfs(em, &t, al, all, hist, depth - 1, first, stop);
        }
        hist.pop();
    }
}

pub fn run(seed: u64, shard: usize, shards: usize, secs: u64, want: usize, path: &str) {
    let t0 = std::time::Instant::now();
    let mut em = Emit::new(want, 8);
    for (n, regs, depth) in [(3usize, 3usize, 4usize), (3, 1, 4), (3, 2, 5), (4, 2, 4)] {
        let al = allocs(n, regs);
        let mut all = vec![];
        for a in 0..n {
            for b in 0..n {
                all.push(Ev::Move(a, b, None));
                all.push(Ev::Move(a, b, Some(b)));
            }
            all.push(Ev::Write(a));
        }
        all.push(Ev::Join);
        let stop = t0 + std::time::Duration::from_millis(secs * 600);
        dfs(&mut em, &start(n), &al, &all, &mut vec![], depth, &|i| i % shards == shard, stop);
    }
    let mut i = 0u64;
    while t0.elapsed().as_secs() < secs {
        for _ in 0..64 {
            i += 1;
            let sd = seed.wrapping_mul(1_000_003).wrapping_add((shard as u64) << 40) + i;
            let mut rng = Rng::new(sd);
            let n = if rng.pct(4) { rng.range(9, 30) } else { rng.range(2, 8) };
            let regs = rng.range(0, n);
            let al = allocs(n, regs);
            let (pw, pj, pv) = (*rng.pick(&[2, 10, 25]), *rng.pick(&[0, 2]), *rng.pick(&[0, 50, 100]));
            let len = if rng.pct(3) { 400 } else { rng.range(3, 40) };
            let mut s = start(n);
            let mut hist = vec![];
            let mut bad: Option<(&str, Option<String>)> = None;
            for _ in 0..len {
                let ev = if rng.pct(pw) {
                    Ev::Write(rng.below(n))
                } else if rng.pct(pj) {
                    Ev::Join
                } else {
                    let v = if rng.pct(pv) { Some(rng.below(3)) } else { None };
                    Ev::Move(rng.below(n), rng.below(n), v)
                };
                match catch_unwind(AssertUnwindSafe(|| step(&mut s, &al, ev))) {
                    Ok((el, same)) => {
                        hist.push((ev, el));
                        if !same {
                            bad = Some(("stale", None));
                        }
                    }
                    Err(p) => {
                        hist.push((ev, false));
                        bad = Some(("panic", Some(panic_msg(p))));
                    }
                }
                if bad.is_some() {
                    break;
                }
            }
            em.add(bad.as_ref().map(|b| b.0), false, || {
                rec(&format!("elim:rnd:{sd}"), &al, &hist, bad.as_ref().and_then(|b| b.1.as_deref()))
            });
        }
    }
    em.finish(path);
}
