//! A concrete, mutable implementation of regalloc2's `Function`.
use regalloc2::*;

#[derive(Clone, Debug, Default)]
pub struct InstD {
    pub ops: Vec<Operand>,
    pub clob: PRegSet,
    pub branch: bool,
    pub ret: bool,
}

#[derive(Clone, Debug, Default)]
pub struct BlockD {
    pub insts: Vec<InstD>,
    pub succs: Vec<Block>,
    pub preds: Vec<Block>,
    pub params: Vec<VReg>,
    /// Blockparam args per successor.
    pub args: Vec<Vec<VReg>>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub blocks: Vec<BlockD>,
    pub entry: usize,
    pub num_vregs: usize,
    pub debug: Vec<(VReg, Inst, Inst, u32)>,
    pub slot_size: [usize; 3],
    pub named_last: bool,
    pub multi_defs: bool,
    // derived
    pub ranges: Vec<(usize, usize)>, // per block: first..end inst index
    pub flat: Vec<(usize, usize)>,   // inst -> (block, idx)
}

impl Func {
    pub fn new() -> Self {
        Func {
            blocks: vec![],
            entry: 0,
            num_vregs: 0,
            debug: vec![],
            slot_size: [1, 1, 1],
            named_last: false,
            multi_defs: false,
            ranges: vec![],
            flat: vec![],
        }
    }
    /// Recompute predecessor lists and instruction numbering.
    pub fn seal(&mut self) {
        for b in &mut self.blocks {
            b.preds.clear();
        }
        for b in 0..self.blocks.len() {
            for s in self.blocks[b].succs.clone() {
                self.blocks[s.index()].preds.push(Block::new(b));
            }
        }
        self.seal_ranges();
    }
    pub fn seal_ranges(&mut self) {
        self.ranges.clear();
        self.flat.clear();
        let mut n = 0;
        for (bi, b) in self.blocks.iter().enumerate() {
            self.ranges.push((n, n + b.insts.len()));
            for k in 0..b.insts.len() {
                self.flat.push((bi, k));
            }
            n += b.insts.len();
        }
    }
    /// The same function with virtual register `v` called `v * k.0 + k.1`.
    pub fn stretched(&self, k: (usize, usize)) -> Func {
        let far = |v: &mut VReg| *v = VReg::new(v.vreg() * k.0 + k.1, v.class());
        let mut f = self.clone();
        f.num_vregs = (self.num_vregs * k.0 + k.1).min(VReg::MAX + 1);
        for b in &mut f.blocks {
            b.params.iter_mut().for_each(far);
            b.args.iter_mut().flatten().for_each(far);
            for op in b.insts.iter_mut().flat_map(|i| &mut i.ops) {
                if op.as_fixed_nonallocatable().is_none() {
                    let mut v = op.vreg();
                    far(&mut v);
                    *op = Operand::new(v, op.constraint(), op.kind(), op.pos());
                }
            }
        }
        f.debug.iter_mut().for_each(|d| far(&mut d.0));
        f
    }
    pub fn inst(&self, i: usize) -> &InstD {
        let (b, k) = self.flat[i];
        &self.blocks[b].insts[k]
    }
}

impl Function for Func {
    fn num_insts(&self) -> usize {
        self.flat.len()
    }
    fn num_blocks(&self) -> usize {
        self.blocks.len()
    }
    fn entry_block(&self) -> Block {
        Block::new(self.entry)
    }
    fn block_insns(&self, block: Block) -> InstRange {
        let (a, b) = self.ranges[block.index()];
        InstRange::new(Inst::new(a), Inst::new(b))
    }
    fn block_succs(&self, block: Block) -> &[Block] {
        &self.blocks[block.index()].succs
    }
    fn block_preds(&self, block: Block) -> &[Block] {
        &self.blocks[block.index()].preds
    }
    fn block_params(&self, block: Block) -> &[VReg] {
        &self.blocks[block.index()].params
    }
    fn is_ret(&self, insn: Inst) -> bool {
        self.inst(insn.index()).ret
    }
    fn is_branch(&self, insn: Inst) -> bool {
        self.inst(insn.index()).branch
    }
    fn branch_blockparams(&self, block: Block, _insn: Inst, succ_idx: usize) -> &[VReg] {
        &self.blocks[block.index()].args[succ_idx]
    }
    fn inst_operands(&self, insn: Inst) -> &[Operand] {
        &self.inst(insn.index()).ops
    }
    fn inst_clobbers(&self, insn: Inst) -> PRegSet {
        self.inst(insn.index()).clob
    }
    fn num_vregs(&self) -> usize {
        self.num_vregs
    }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] {
        &self.debug
    }
    fn spillslot_size(&self, regclass: RegClass) -> usize {
        self.slot_size[regclass as usize]
    }
    fn multi_spillslot_named_by_last_slot(&self) -> bool {
        self.named_last
    }
    fn allow_multiple_vreg_defs(&self) -> bool {
        self.multi_defs
    }
}
