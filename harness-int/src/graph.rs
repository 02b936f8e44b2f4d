//! Postorder, dominators and CFG info on enumerated and random graphs.
use crate::emit::Emit;
use ravharness::func::*;
use ravharness::json::J;
use ravharness::record::panic_msg;
use ravharness::rng::Rng;
use regalloc2::verif::*;
use regalloc2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Ans {
    po: Vec<usize>,
    idom: Vec<usize>,
    dom: Vec<Vec<bool>>,
    cfg: Option<(Vec<usize>, Vec<u32>, Vec<u32>, Vec<u32>)>,
}

fn solve(s: &[Vec<usize>], entry: usize, f: Option<&Func>) -> Result<Ans, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let n = s.len();
        let sb: Vec<Vec<Block>> = s.iter().map(|v| v.iter().map(|&b| Block::new(b)).collect()).collect();
        let mut pb: Vec<Vec<Block>> = vec![vec![]; n];
        for (b, v) in s.iter().enumerate() {
            for &t in v {
                pb[t].push(Block::new(b));
            }
        }
        let mut po = vec![];
        // dirty scratch buffers: the functions must not depend on them
        let mut vis = vec![true; n / 2];
        postorder::calculate(n, Block::new(entry), &mut vis, &mut po, |b| &sb[b.index()]).unwrap();
        let mut idom = vec![Block::new(0); n + 3];
        let mut rpo = vec![Some(7); n / 2 + 1];
        domtree::calculate(n, |b| &pb[b.index()], &po, &mut rpo, &mut idom, Block::new(entry));
        let dom = (0..n)
            .map(|a| (0..n).map(|b| domtree::dominates(&idom, Block::new(a), Block::new(b))).collect())
            .collect();
        let cfg = f.and_then(|f| CFGInfo::new(f).ok()).map(|c| {
            assert!(c.postorder == po && c.domtree == idom, "CFGInfo disagrees with its parts");
            (
                c.insn_block.iter().map(|b| b.index()).collect(),
                c.block_entry.iter().map(|p| p.to_index()).collect(),
                c.block_exit.iter().map(|p| p.to_index()).collect(),
                c.approx_loop_depth.clone(),
            )
        });
        Ans {
            po: po.iter().map(|b| b.index()).collect(),
            idom: idom.iter().map(|b| if b.is_valid() { b.index() + 1 } else { 0 }).collect(),
            dom,
            cfg,
        }
    }))
    .map_err(panic_msg)
}

fn reach(s: &[Vec<usize>], from: usize, avoid: Option<usize>) -> Vec<bool> {
    let mut r = vec![false; s.len()];
    if avoid == Some(from) {
        return r;
    }
    r[from] = true;
    let mut st = vec![from];
    while let Some(b) = st.pop() {
        for &t in &s[b] {
            if !r[t] && Some(t) != avoid {
                r[t] = true;
                st.push(t);
            }
        }
    }
    r
}

/// Loop depths, where the layout nests the loops.
fn depths(s: &[Vec<usize>]) -> Option<Vec<u32>> {
    let n = s.len();
    let mut last: Vec<Option<usize>> = vec![None; n];
    let mut back = vec![];
    for u in 0..n {
        for &h in s[u].iter().filter(|&&h| h <= u) {
            last[h] = Some(u);
            back.push((u, h));
        }
    }
    for &(u, h) in &back {
        if (h + 1..=u).any(|x| last[x].map_or(false, |l| l >= u)) || back.iter().filter(|b| b.0 == u).count() > 1 {
            return None;
        }
    }
    Some((0..n).map(|b| (0..=b).filter(|&h| last[h].map_or(false, |l| b <= l)).count() as u32).collect())
}

/// Nested loops in layout order, no critical edges.
fn nest(rng: &mut Rng, s: &mut Vec<Vec<usize>>, depth: usize) {
    for _ in 0..rng.range(1, 2) {
        let b = s.len();
        s.push(vec![b + 1]);
        if depth > 0 && s.len() < 24 && rng.pct(70) {
            let h = s.len();
            s.push(vec![h + 1]);
            nest(rng, s, depth - 1);
            if rng.pct(30) {
                // a second way back, from the middle of the body
                let c = s.len();
                s.push(vec![c + 1, c + 2]);
                s.push(vec![h]);
                s.push(vec![c + 3]);
            }
            let c = s.len();
            s.push(vec![c + 1, c + 2]);
            s.push(vec![h]);
        }
    }
    let b = s.len();
    s.push(vec![b + 1]);
}

fn suspicious(s: &[Vec<usize>], entry: usize, a: &Ans, f: Option<&Func>) -> Option<&'static str> {
    let n = s.len();
    let r = reach(s, entry, None);
    let mut cnt = vec![0; n];
    for &b in &a.po {
        cnt[b] += 1;
    }
    if (0..n).any(|b| cnt[b] != r[b] as usize) || a.po.last() != Some(&entry) {
        return Some("postorder");
    }
    let mut idx = vec![0; n];
    for (i, &b) in a.po.iter().enumerate() {
        idx[b] = i;
    }
    for u in (0..n).filter(|&u| r[u]) {
        for &v in &s[u] {
            if idx[v] > idx[u] {
                // v must reach u inside the blocks listed before it
                let mut seen = vec![false; n];
                let mut st = vec![v];
                seen[v] = true;
                while let Some(x) = st.pop() {
                    for &t in &s[x] {
                        if !seen[t] && idx[t] <= idx[v] {
                            seen[t] = true;
                            st.push(t);
                        }
                    }
                }
                if !seen[u] {
                    return Some("postorder");
                }
            }
        }
    }
    let av: Vec<Vec<bool>> = (0..n).map(|x| reach(s, entry, Some(x))).collect();
    for x in (0..n).filter(|&x| r[x]) {
        for b in (0..n).filter(|&b| r[b]) {
            if a.dom[x][b] == av[x][b] {
                return Some("dominates");
            }
        }
    }
    for b in (0..n).filter(|&b| r[b]) {
        let i = a.idom[b];
        if b == entry {
            if i != 0 {
                return Some("idom");
            }
        } else if i == 0
            || i - 1 == b
            || !r[i - 1]
            || av[i - 1][b]
            || (0..n).any(|x| r[x] && x != b && !av[x][b] && av[x][i - 1])
        {
            return Some("idom");
        }
    }
    if let (Some((ib, be, bx, ld)), Some(f)) = (&a.cfg, f) {
        if let Some(d) = depths(s) {
            if *ld != d {
                return Some("depth");
            }
        }
        for (b, &(x, y)) in f.ranges.iter().enumerate() {
            if be[b] != 2 * x as u32 || bx[b] != 2 * y as u32 - 1 || (x..y).any(|i| ib[i] != b) {
                return Some("ranges");
            }
        }
    }
    None
}

fn rec(id: &str, s: &[Vec<usize>], entry: usize, a: &Result<Ans, String>, f: Option<&Func>) -> String {
    let mut j = J::new();
    j.ob();
    j.ks("id", id);
    j.ki("n", s.len() as i64);
    j.ki("e", entry as i64 + 1);
    j.k("s");
    j.ab();
    for v in s {
        j.arr(v.iter().map(|&x| x as i64 + 1));
    }
    j.ae();
    j.ks("out", if a.is_ok() { "ok" } else { "panic" });
    j.ks("msg", a.as_ref().err().map_or("", |s| s));
    if let Ok(a) = a {
        j.karr("po", a.po.iter().map(|&x| x as i64 + 1));
        j.karr("idom", a.idom.iter().map(|&x| x as i64));
        j.k("dom");
        j.ab();
        for v in &a.dom {
            j.ab();
            for &b in v {
                j.b(b);
            }
            j.ae();
        }
        j.ae();
        j.kb("cfg", a.cfg.is_some());
        if let (Some((ib, be, bx, ld)), Some(f)) = (&a.cfg, f) {
            j.karr("ld", ld.iter().map(|&x| x as i64));
            j.ki("ni", f.flat.len() as i64);
            j.karr("ib", ib.iter().map(|&x| x as i64 + 1));
            j.karr("be", be.iter().map(|&x| x as i64));
            j.karr("bx", bx.iter().map(|&x| x as i64));
            j.k("r");
            j.ab();
            for &(x, y) in &f.ranges {
                j.arr([x as i64 + 1, y as i64 + 1]);
            }
            j.ae();
        }
    }
    j.oe();
    j.0
}

fn func(rng: &mut Rng, s: &[Vec<usize>], entry: usize) -> Func {
    let mut f = Func::new();
    f.entry = entry;
    for v in s {
        let mut b = BlockD::default();
        for _ in 0..rng.below(3) {
            b.insts.push(InstD::default());
        }
        b.insts.push(InstD { branch: !v.is_empty(), ret: v.is_empty(), ..Default::default() });
        b.succs = v.iter().map(|&x| Block::new(x)).collect();
        b.args = vec![vec![]; v.len()];
        f.blocks.push(b);
    }
    f.seal();
    f
}

pub fn run(seed: u64, shard: usize, shards: usize, secs: u64, want: usize, path: &str) {
    let t0 = std::time::Instant::now();
    let mut e = Emit::new(want, 8);
    let go = |e: &mut Emit, s: &[Vec<usize>], entry: usize, f: Option<&Func>, id: String, keep: bool| {
        let a = solve(s, entry, f);
        let b = match &a {
            Err(_) => Some("panic"),
            Ok(a) => suspicious(s, entry, a, f),
        };
        if b.is_none() && s.len() > 12 {
            // too big to be decided by exploring walks
            e.ran += 1;
            return;
        }
        e.add(b, keep, || rec(&id, s, entry, &a, f));
    };
    // every graph of up to 4 blocks, every entry
    let mut count = 0u64;
    'all: for n in 1..=4usize {
        for code in 0..1u64 << (n * n) {
            for entry in 0..n {
                count += 1;
                if count % shards as u64 != shard as u64 {
                    continue;
                }
                if count % 512 == 0 && t0.elapsed().as_millis() as u64 > secs * 600 {
                    break 'all;
                }
                let mut rng = Rng::new(seed ^ (count << 7));
                let s: Vec<Vec<usize>> = (0..n)
                    .map(|b| {
                        let mut v: Vec<usize> = (0..n).filter(|t| code >> (b * n + t) & 1 == 1).collect();
                        rng.shuffle(&mut v);
                        v
                    })
                    .collect();
                go(&mut e, &s, entry, None, format!("graph:{n}:{code}:{entry}"), n <= 2);
            }
        }
    }
    let mut i = 0u64;
    while t0.elapsed().as_secs() < secs {
        for _ in 0..128 {
            i += 1;
            let sd = seed.wrapping_mul(1_000_003).wrapping_add((shard as u64) << 40) + i;
            let mut rng = Rng::new(sd);
            let n = if rng.pct(20) { rng.range(12, 40) } else { rng.range(3, 12) };
            let entry = if rng.pct(60) { 0 } else { rng.below(n) };
            let back = *rng.pick(&[0, 10, 30, 60]);
            let mut s: Vec<Vec<usize>> = vec![vec![]; n];
            let mut perm: Vec<usize> = (0..n).collect();
            if rng.pct(50) {
                rng.shuffle(&mut perm);
            }
            for b in 0..n {
                for _ in 0..*rng.pick(&[0, 1, 1, 2, 2, 3]) {
                    let t = if rng.pct(back) || b + 1 == n { rng.below(n) } else { rng.range(b + 1, (b + 4).min(n - 1)) };
                    s[perm[b]].push(perm[t]);
                }
                // branches with two edges to one block occur too
                if !rng.pct(10) {
                    let mut k = vec![];
                    for &t in &s[perm[b]] {
                        if !k.contains(&t) {
                            k.push(t);
                        }
                    }
                    s[perm[b]] = k;
                }
            }
            if rng.pct(40) {
                ravharness::gen::split_critical(&mut s);
            }
            let mut entry = entry;
            if rng.pct(20) {
                s = vec![];
                nest(&mut rng, &mut s, 3);
                let b = s.len();
                s[b - 1].clear();
                entry = 0;
            }
            let f = func(&mut rng, &s, entry);
            go(&mut e, &s, entry, Some(&f), format!("graph:rnd:{sd}"), s.len() > 6 && s.len() < 12 && i % 64 < 3 && depths(&s).is_some());
        }
    }
    e.finish(path);
}
