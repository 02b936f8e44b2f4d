//! A fast approximation of the TLA+ machine (meet over paths). It only decides
//! which records are handed to TLC first; it never decides a verdict.
use crate::gen::*;
use crate::record::*;

pub type Set = Vec<u64>;

fn bit(s: &Set, i: usize) -> bool {
    s[i / 64] >> (i % 64) & 1 == 1
}
fn setb(s: &mut Set, i: usize) {
    s[i / 64] |= 1 << (i % 64);
}
fn clrb(s: &mut Set, i: usize) {
    s[i / 64] &= !(1 << (i % 64));
}

pub struct View<'a> {
    pub r: &'a Rec,
    kind: Vec<u8>, // per loc: a/s(cratch)/f/o/S(lot)
    last: bool,
}

impl<'a> View<'a> {
    pub fn new(r: &'a Rec, c: &Case) -> Self {
        let mut kind = vec![b'?'];
        for l in &r.locs {
            kind.push(match *l {
                Loc::Slot(..) => b'S',
                Loc::Reg(cl, n) => {
                    let ci = cl as usize - 1;
                    let p = regalloc2::PReg::new(n as usize, CLASSES[ci]);
                    if c.env.preferred_regs_by_class[ci].contains(p)
                        || c.env.non_preferred_regs_by_class[ci].contains(p)
                    {
                        b'a'
                    } else if c.env.scratch_by_class[ci] == Some(p) {
                        b's'
                    } else if c.env.fixed_stack_slots.contains(&p) {
                        b'f'
                    } else {
                        b'o'
                    }
                }
                Loc::None => b'?',
            });
        }
        View {
            r,
            kind,
            last: c.f.named_last,
        }
    }
    fn base(&self, a: usize) -> (i64, i64) {
        match self.r.locs[a - 1] {
            Loc::Slot(n, w) => (
                if self.last {
                    n as i64 - w as i64 + 1
                } else {
                    n as i64
                },
                w as i64,
            ),
            _ => (-1, 0),
        }
    }
    fn overlap(&self, a: usize, b: usize) -> bool {
        if a == b {
            return true;
        }
        if self.kind[a] != b'S' || self.kind[b] != b'S' {
            return false;
        }
        let (x, w) = self.base(a);
        let (y, z) = self.base(b);
        x < y + z && y < x + w
    }
    fn is_stack(&self, a: usize) -> bool {
        self.kind[a] == b'S' || self.kind[a] == b'f'
    }
    fn class(&self, a: usize) -> u8 {
        match self.r.locs[a - 1] {
            Loc::Reg(c, _) => c,
            _ => 0,
        }
    }
}

pub fn screen(r: &Rec, c: &Case) -> Vec<String> {
    let mut bad = vec![];
    match r.out.as_str() {
        "ok" => {}
        "err" => {
            if r.msg == "TooManyOperands" && r.mo > 65_535 {
                // more than the documented limit
            } else if r.msg != "TooManyLiveRegs" {
                bad.push("rejected".into());
            } else if roomy(c) {
                bad.push("toomany".into());
            }
            return bad;
        }
        x => {
            bad.push(x.to_string());
            return bad;
        }
    }
    let w = View::new(r, c);
    // static
    for ins in &r.insts {
        for o in &ins.o {
            if o.a == 0 {
                bad.push("constraint".into());
                return bad;
            }
            let l = r.locs[o.a - 1];
            let okk = match o.c {
                "nonalloc" | "fixed" => l == Loc::Reg(o.x.0, o.x.1 as u8),
                "any" => {
                    w.kind[o.a] == b'S'
                        || (w.kind[o.a] == b'a' || w.kind[o.a] == b'f') && w.class(o.a) == r.vc[o.v - 1]
                }
                "reg" => w.kind[o.a] == b'a' && w.class(o.a) == r.vc[o.v - 1],
                "stack" => {
                    w.kind[o.a] == b'S' || w.kind[o.a] == b'f' && w.class(o.a) == r.vc[o.v - 1]
                }
                "limit" => {
                    w.kind[o.a] == b'a'
                        && w.class(o.a) == r.vc[o.v - 1]
                        && matches!(l, Loc::Reg(_, n) if (n as usize) < o.x.1)
                }
                "reuse" => o.a == ins.o[o.x.1 - 1].a,
                _ => false,
            };
            let same = !o.def || ins.o.iter().all(|x| !x.def || x.v != o.v || x.a == o.a);
            if !okk || !same {
                bad.push("constraint".into());
            }
        }
    }
    let terms: Vec<usize> = r.blocks.iter().map(|b| 2 * (b.l - 1) + 1).collect();
    let mut prev = 0;
    for &(p, f, t) in &r.edits {
        if f == 0 || t == 0 {
            bad.push("edit-none".into());
            return bad;
        }
        if p < prev || p >= 2 * r.insts.len() {
            bad.push("edit-order".into());
            return bad;
        }
        prev = p;
        let mut cl = vec![];
        for x in [f, t] {
            if w.class(x) != 0 {
                cl.push(w.class(x));
            }
        }
        if w.is_stack(f) && w.is_stack(t)
            || cl.is_empty()
            || cl.len() == 2 && cl[0] != cl[1]
            || w.kind[f] == b'o'
            || w.kind[t] == b'o'
            || terms.contains(&p)
        {
            bad.push("edit".into());
        }
    }
    for a in 1..=r.locs.len() {
        if w.kind[a] == b'S' {
            let (b, z) = w.base(a);
            if b < 0 || b + z > r.nslots as i64 || b % z != 0 {
                bad.push("slot".into());
            }
        }
    }
    let fast = r.alg == "fast";
    let req = |lab: u32, pt: usize| {
        r.dr.iter().any(|d| d.3 == lab && (fast || 2 * (d.1 - 1) <= pt && pt < 2 * (d.2 - 1)))
    };
    for k in 0..r.dl.len() {
        let d = r.dl[k];
        let p = if k > 0 { r.dl[k - 1] } else { (0, 0, 0, 0) };
        if d.1 >= d.2
            || k > 0 && (p.0, p.1) > (d.0, d.1)
            || k > 0 && p.0 == d.0 && p.2 > d.1 && !fast
            || !req(d.0, d.1)
            || !req(d.0, d.2 - 1)
        {
            bad.push("debug-shape".into());
            break;
        }
    }
    // dataflow
    let nb = r.blocks.len();
    let nl = r.locs.len() + 1;
    let nw = r.vc.len() / 64 + 1;
    let scr: Vec<usize> = (1..nl).filter(|&a| w.kind[a] == b's').collect();
    let mut inn: Vec<Option<Vec<Set>>> = vec![None; nb];
    inn[r.entry - 1] = Some(vec![vec![0; nw]; nl]);
    let mut work = vec![r.entry - 1];
    let mut errs = std::collections::BTreeSet::new();
    let slots: Vec<usize> = (1..nl).filter(|&a| w.kind[a] == b'S').collect();
    while let Some(b) = work.pop() {
        let bd = &r.blocks[b];
        let mut st = inn[b].clone().unwrap();
        let mv = |st: &mut Vec<Set>, k: usize| {
            let (_, f, t) = r.edits[k - 1];
            if f == t {
                return;
            }
            let v = st[f].clone();
            if w.kind[t] == b'S' {
                for &a in &slots {
                    if a != t && w.overlap(a, t) {
                        st[a].iter_mut().for_each(|x| *x = 0);
                    }
                }
            }
            st[t] = v;
        };
        for i in bd.f - 1..bd.l {
            let ins = &r.insts[i];
            for k in ins.e[0]..ins.e[1] {
                mv(&mut st, k);
            }
            let fast = r.alg == "fast";
            let live_from = |from: usize, v: usize| {
                for k in from..bd.l {
                    let mut it = r.insts[k].o.iter().filter(|o| o.v == v).peekable();
                    if it.peek().is_some() {
                        return it.any(|o| !o.def);
                    }
                }
                bd.s.iter().enumerate().any(|(k, &s)| {
                    let t = &r.blocks[s - 1];
                    bd.a[k].contains(&v) || t.lv.contains(&v) && !t.p.contains(&v)
                })
            };
            let dbg = |pt: usize, st: &Vec<Set>, defs: &[usize], skip: &[usize]| {
                r.dl.iter().any(|d| {
                    d.1 <= pt
                        && pt < d.2
                        && !skip.contains(&d.3)
                        && (d.3 == 0
                            || !r.dr.iter().any(|q| {
                                q.3 == d.0
                                    && (fast || 2 * (q.1 - 1) <= pt && pt < 2 * (q.2 - 1))
                                    && (bit(&st[d.3], q.0)
                                        || defs.contains(&q.0)
                                        || fast && !live_from((pt + 1) / 2, q.0))
                            }))
                })
            };
            // every requested point at which the vreg is live (which a later
            // use in the block shows) is answered for
            let wanted = |from: usize, v: usize| {
                (from..bd.l).find(|&k| r.insts[k].o.iter().any(|o| o.v == v)).map_or(
                    bd.a.iter().any(|a| a.contains(&v)),
                    |k| r.insts[k].o.iter().any(|o| o.v == v && !o.def),
                )
            };
            // fastalloc does not answer for a vreg whose uses are laid out
            // before its def
            let local = |v: usize| {
                r.blocks.iter().enumerate().all(|(x, y)| {
                    x == b
                        || !y.p.contains(&v)
                            && !y.a.iter().any(|a| a.contains(&v))
                            && !(y.f - 1..y.l).any(|k| r.insts[k].o.iter().any(|o| o.v == v))
                }) && !(0..bd.s.len()).any(|k| bd.s[k] == b + 1)
            };
            let lost = |pt: usize| {
                r.dr.iter().any(|q| {
                    2 * (q.1 - 1) <= pt
                        && pt < 2 * (q.2 - 1)
                        && (!fast || bd.f <= q.1 && q.2 <= bd.l && local(q.0) && wanted(q.1 - 1, q.0) && wanted(q.2 - 1, q.0))
                        && wanted((pt + 1) / 2, q.0)
                        && !r.dl.iter().any(|d| d.0 == q.3 && d.1 <= pt && pt < d.2)
                })
            };
            if lost(2 * i) || i + 1 < bd.l && lost(2 * i + 1) {
                errs.insert("debug-missing");
            }
            if !r.dl.is_empty() && !(i + 1 == bd.l && !bd.s.is_empty()) {
                let reused: Vec<usize> = ins.o.iter().filter(|o| o.c == "reuse").map(|o| o.a).collect();
                let defs: Vec<usize> = ins.o.iter().filter(|o| o.def && o.v > 0).map(|o| o.v).collect();
                if dbg(2 * i, &st, &defs, &reused) {
                    errs.insert("debug");
                }
            }
            let def = |st: &mut Vec<Set>, late: bool| {
                let ds: Vec<&ROp> = ins.o.iter().filter(|o| o.v > 0 && o.def && o.late == late).collect();
                for d in &ds {
                    for a in 1..nl {
                        clrb(&mut st[a], d.v);
                        if w.overlap(a, d.a) {
                            st[a].iter_mut().for_each(|x| *x = 0);
                        }
                    }
                }
                for d in &ds {
                    if !ds.iter().any(|e| e.v != d.v && w.overlap(e.a, d.a)) {
                        setb(&mut st[d.a], d.v);
                    }
                }
            };
            let chk = |st: &Vec<Set>, f: &dyn Fn(&ROp) -> bool| {
                ins.o.iter().any(|o| o.v > 0 && f(o) && !bit(&st[o.a], o.v))
            };
            def(&mut st, false);
            if chk(&st, &|o| !o.def && !o.late) {
                errs.insert("use");
            }
            def(&mut st, true);
            for c in &ins.clob {
                for a in 1..nl {
                    if r.locs[a - 1] == Loc::Reg(c.0, c.1) {
                        st[a].iter_mut().for_each(|x| *x = 0);
                    }
                }
            }
            for &a in &scr {
                st[a].iter_mut().for_each(|x| *x = 0);
            }
            if chk(&st, &|o| !o.def && o.late) {
                errs.insert("late use");
            }
            if chk(&st, &|o| o.def) {
                errs.insert("def");
            }
            for k in ins.e[1]..ins.e[2] {
                mv(&mut st, k);
            }
            if !r.dl.is_empty() && i + 1 < bd.l && dbg(2 * i + 1, &st, &[], &[]) {
                errs.insert("debug");
            }
        }
        for (k, &s) in bd.s.iter().enumerate() {
            let mut n = st.clone();
            let ps = &r.blocks[s - 1].p;
            for a in 1..nl {
                for p in ps {
                    clrb(&mut n[a], *p);
                }
                for (j, &x) in bd.a[k].iter().enumerate() {
                    if bit(&st[a], x) {
                        setb(&mut n[a], ps[j]);
                    }
                }
            }
            let t = &mut inn[s - 1];
            let ch = match t {
                None => {
                    *t = Some(n);
                    true
                }
                Some(o) => {
                    let mut ch = false;
                    for a in 1..nl {
                        for q in 0..nw {
                            let m = o[a][q] & n[a][q];
                            ch |= m != o[a][q];
                            o[a][q] = m;
                        }
                    }
                    ch
                }
            };
            if ch && !work.contains(&(s - 1)) {
                work.push(s - 1);
            }
        }
        if !errs.is_empty() {
            break;
        }
    }
    bad.extend(errs.into_iter().map(|s| s.to_string()));
    bad
}

/// A coarse description of the record, used to pick varied cases.
pub fn features(r: &Rec, c: &Case) -> u64 {
    let w = View::new(r, c);
    let mut k: u64 = 0;
    let mut push = |v: usize, base: u64| k = k * base + (v as u64).min(base - 1);
    let sp = r.edits.iter().filter(|e| e.1 > 0 && e.2 > 0 && (w.is_stack(e.1) || w.is_stack(e.2))).count();
    let sc = r.edits.iter().filter(|e| e.1 > 0 && e.2 > 0 && (w.kind[e.1] == b's' || w.kind[e.2] == b's')).count();
    let mut same = 0;
    for x in r.edits.windows(2) {
        if x[0].0 == x[1].0 {
            same += 1;
        }
    }
    let lg = |x: usize| (usize::BITS - x.leading_zeros()) as usize;
    push(lg(r.edits.len()), 7);
    push(lg(sp), 6);
    push(sc, 3);
    push(lg(same), 5);
    push(lg(r.nslots), 5);
    push(if r.blocks.iter().any(|b| b.p.len() > 1) { 1 } else { 0 }, 2);
    push(if c.knobs.permute { 1 } else { 0 }, 2);
    let ops = |f: &dyn Fn(&ROp) -> bool| r.insts.iter().flat_map(|i| i.o.iter()).any(|o| f(o)) as usize;
    push(ops(&|o| o.c == "reuse"), 2);
    push(ops(&|o| o.c == "fixed"), 2);
    push(ops(&|o| o.c == "stack"), 2);
    push(ops(&|o| o.c == "limit"), 2);
    push(ops(&|o| !o.def && o.late), 2);
    push(ops(&|o| o.def && !o.late), 2);
    push(r.insts.iter().any(|i| !i.clob.is_empty()) as usize, 2);
    push(r.locs.iter().any(|l| matches!(l, Loc::Slot(_, w) if *w > 1)) as usize, 2);
    push(lg(r.dl.len()), 3);
    k
}
