//! Walking an allocation's output: per-instruction allocations, and the
//! instructions and moves of a block in order.  Synthetic outputs with any
//! number of moves at any legal point.
use crate::emit::Emit;
use ravharness::func::*;
use ravharness::json::J;
use ravharness::record::panic_msg;
use ravharness::rng::Rng;
use regalloc2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn case(em: &mut Emit, sd: u64) {
    let mut rng = Rng::new(sd);
    let nb = if rng.pct(3) { rng.range(6, 40) } else { rng.range(1, 5) };
    let mut f = Func::new();
    f.num_vregs = 1;
    for _ in 0..nb {
        let n = rng.range(1, 5);
        let mut bl = BlockD::default();
        for k in 0..n {
            bl.insts.push(InstD { branch: k + 1 == n, ..Default::default() });
        }
        f.blocks.push(bl);
    }
    f.seal();
    let ni = f.num_insts();
    let last: Vec<usize> = f.ranges.iter().map(|r| r.1 - 1).collect();
    let mut o = Output::default();
    // Allocations are told apart by their numbers.
    let pz = *rng.pick(&[0, 30, 80]);
    for _ in 0..ni {
        o.inst_alloc_offsets.push(o.allocs.len() as u32);
        let k = if rng.pct(pz) { 0 } else { rng.below(4) };
        for _ in 0..k {
            let n = o.allocs.len();
            o.allocs.push(Allocation::stack(SpillSlot::new(n)));
        }
    }
    let mut pts: Vec<usize> = vec![];
    let dens = *rng.pick(&[1, 3, 10, 30]) * (1 + nb / 6);
    for _ in 0..rng.below(dens * 2) {
        let p = rng.below(2 * ni);
        if p % 2 == 1 && last.contains(&(p / 2)) {
            continue;
        }
        for _ in 0..*rng.pick(&[1, 1, 1, 2, 4]) {
            pts.push(p);
        }
    }
    pts.sort();
    for (k, &p) in pts.iter().enumerate() {
        let a = Allocation::stack(SpillSlot::new(1000 + k));
        o.edits.push((ProgPoint::from_index(p as u32), Edit::Move { from: a, to: a }));
    }
    let mut blocks: Vec<Vec<i64>> = vec![];
    let mut allocs: Vec<Vec<i64>> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        for b in 0..nb {
            let mut l = vec![];
            for x in o.block_insts_and_edits(&f, Block::new(b)).take(500) {
                l.push(match x {
                    InstOrEdit::Inst(i) => i.index() as i64 + 1,
                    InstOrEdit::Edit(Edit::Move { from, .. }) => -(from.as_stack().unwrap().index() as i64 - 1000 + 1),
                });
            }
            blocks.push(l);
        }
        for i in 0..ni {
            allocs.push(o.inst_allocs(Inst::new(i)).iter().map(|a| a.as_stack().unwrap().index() as i64 + 1).collect());
        }
    }));
    let msg = r.err().map(panic_msg);
    // A quick look: everything appears once, moves in order.
    let flat: Vec<i64> = blocks.iter().flatten().copied().collect();
    let mut insts: Vec<i64> = flat.iter().copied().filter(|&x| x > 0).collect();
    let edits: Vec<i64> = flat.iter().copied().filter(|&x| x < 0).map(|x| -x).collect();
    let sorted = insts.windows(2).all(|w| w[0] < w[1]);
    insts.sort();
    let mut at = 0;
    let mut placed = true;
    for &x in &flat {
        if x > 0 {
            placed &= (x as usize - 1) * 2 >= at;
            at = (x as usize - 1) * 2 + 1;
        } else {
            let p = pts[(-x) as usize - 1];
            placed &= p >= at;
            at = p;
        }
    }
    let good = msg.is_none()
        && sorted
        && placed
        && insts.len() == ni
        && edits == (1..=pts.len() as i64).collect::<Vec<_>>()
        && allocs.iter().flatten().copied().collect::<Vec<_>>() == (1..=o.allocs.len() as i64).collect::<Vec<_>>()
        && (0..ni).all(|i| {
            let e = if i + 1 == ni { o.allocs.len() } else { o.inst_alloc_offsets[i + 1] as usize };
            allocs[i].len() == e - o.inst_alloc_offsets[i] as usize
        });
    let bad = if msg.is_some() { Some("panic") } else if !good { Some("order") } else { None };
    em.add(bad, false, || {
        let mut j = J::new();
        j.ob();
        j.ks("id", &format!("enum:{sd}"));
        j.ks("out", if msg.is_some() { "panic" } else { "ok" });
        j.ks("msg", msg.as_deref().unwrap_or(""));
        j.k("r");
        j.ab();
        for r in &f.ranges {
            j.arr([r.0 as i64 + 1, r.1 as i64]);
        }
        j.ae();
        j.karr("off", o.inst_alloc_offsets.iter().map(|&x| x as i64));
        j.ki("na", o.allocs.len() as i64);
        j.karr("pt", pts.iter().map(|&p| p as i64));
        j.k("walk");
        j.ab();
        for l in &blocks {
            j.arr(l.iter().copied());
        }
        j.ae();
        j.k("ia");
        j.ab();
        for l in &allocs {
            j.arr(l.iter().copied());
        }
        j.ae();
        j.oe();
        j.0
    });
}

pub fn run(seed: u64, shard: usize, _shards: usize, secs: u64, want: usize, path: &str) {
    let t0 = std::time::Instant::now();
    let mut em = Emit::new(want, 8);
    let mut i = 0u64;
    while t0.elapsed().as_secs() < secs {
        for _ in 0..64 {
            i += 1;
            case(&mut em, seed.wrapping_mul(1_000_003).wrapping_add((shard as u64) << 40) + i);
        }
    }
    em.finish(path);
}
