From aee3c64aa5d328a32b91e48991ea471d749ae4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 01/27] fix: do not merge a live range into a following range
 that starts at a def

---
 src/ion/liveranges.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 09040f6..8212dc0 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -188,7 +188,22 @@ impl<'a, F: Function> Env<'a, F> {
             );
         }
 
+        // A range that begins with a def must not be extended backward,
+        // even if the new range is contiguous with it: this happens when
+        // blocks are not in RPO, the first instruction of a block has an
+        // early def, and the vreg is live-out of the block that precedes
+        // it in program order. The value does not flow from one range to
+        // the other.
+        let following_range_starts_at_def = match self.vregs[vreg].ranges.last() {
+            Some(entry) => {
+                !self.func.allow_multiple_vreg_defs()
+                    && self.ranges[entry.index].has_flag(LiveRangeFlag::StartsAtDef)
+            }
+            None => false,
+        };
+
         if self.vregs[vreg].ranges.is_empty()
+            || following_range_starts_at_def
             || range.to
                 < self.ranges[self.vregs[vreg].ranges.last().unwrap().index]
                     .range
-- 
2.43.0


From a9224cf93f726e00589ab6322c1a6d65e634abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 02/27] fix: fastalloc: do not let any-constrained operands
 take registers that reg-constrained operands still need

---
 src/fastalloc/mod.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 91fdaa7..0dfdb13 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -350,7 +350,7 @@ impl<T: fmt::Display> fmt::Display for PartedByOperandPos<T> {
     }
 }
 
-#[derive(Debug, Clone, Copy)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum ExclusiveOperandPos {
     EarlyOnly = 0,
     LateOnly = 1,
@@ -603,6 +603,35 @@ impl<'a, F: Function> Env<'a, F> {
         Ok(())
     }
 
+    /// Whether the any-reg operands of the current instruction that are yet to
+    /// be processed can still get registers if one of the registers that are
+    /// currently available is given to `op`.
+    fn leaves_regs_for_any_reg_ops(&self, op: Operand) -> bool {
+        let class = op.class();
+        let exclusive_pos: ExclusiveOperandPos = op.into();
+        let num_left = |regs: PRegSet, taken: bool| {
+            let regs = regs & self.allocatable_regs;
+            regs.into_iter()
+                .filter(|preg| preg.class() == class)
+                .count() as i16
+                - taken as i16
+        };
+        let early = self.available_pregs[OperandPos::Early];
+        let late = self.available_pregs[OperandPos::Late];
+        let both_ops = self.num_any_reg_ops[ExclusiveOperandPos::Both][class];
+        let early_ops = self.num_any_reg_ops[ExclusiveOperandPos::EarlyOnly][class];
+        let late_ops = self.num_any_reg_ops[ExclusiveOperandPos::LateOnly][class];
+        // Early-only and late-only operands may end up taking registers that
+        // are available in both phases.
+        (both_ops == 0 || num_left(early & late, true) >= both_ops + early_ops + late_ops)
+            && (early_ops == 0
+                || num_left(early, exclusive_pos != ExclusiveOperandPos::LateOnly)
+                    >= early_ops + both_ops)
+            && (late_ops == 0
+                || num_left(late, exclusive_pos != ExclusiveOperandPos::EarlyOnly)
+                    >= late_ops + both_ops)
+    }
+
     fn allocd_within_constraint(&self, op: Operand, inst: Inst) -> bool {
         let alloc = self.vreg_allocs[op.vreg().vreg()];
         match op.constraint() {
@@ -610,8 +639,10 @@ impl<'a, F: Function> Env<'a, F> {
                 if let Some(preg) = alloc.as_reg() {
                     let exclusive_pos: ExclusiveOperandPos = op.into();
                     if !self.is_stack(alloc)
-                        && self.num_available_pregs[exclusive_pos][op.class()]
+                        && (self.num_available_pregs[exclusive_pos][op.class()]
                             < self.num_any_reg_ops[exclusive_pos][op.class()]
+                            || (self.available_pregs[op.pos()].contains(preg)
+                                && !self.leaves_regs_for_any_reg_ops(op)))
                     {
                         trace!("Need more registers to cover all any-reg ops. Going to evict {op} from {preg}");
                         return false;
@@ -766,6 +797,7 @@ impl<'a, F: Function> Env<'a, F> {
                     // Not safe to alloc register because any-reg operands still
                     // need them
                     || self.num_any_reg_ops[op.into()][op.class()] >= self.num_available_pregs[op.into()][op.class()]
+                    || !self.leaves_regs_for_any_reg_ops(op)
                 {
                     // If the def is never used, it can just be put in its spillslot.
                     Allocation::stack(self.get_spillslot(op.vreg()))
-- 
2.43.0


From 7d5231ff98cacb46f211e73e30a268fc04ec4327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 03/27] fix: make multi-fixed-reg copies for late uses before
 the instruction

---
 src/ion/liveranges.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 8212dc0..84f8dfe 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -796,7 +796,7 @@ impl<'a, F: Function> Env<'a, F> {
         // have to split the multiple uses at the same progpoint into
         // different bundles, which breaks invariants related to
         // disjoint ranges and bundles).
-        let mut extra_clobbers: SmallVec<[(PReg, ProgPoint); 8]> = smallvec![];
+        let mut extra_clobbers: SmallVec<[(PReg, CodeRange); 8]> = smallvec![];
         for vreg in 0..self.vregs.len() {
             let vreg = VRegIndex::new(vreg);
             for range_idx in 0..self.vregs[vreg].ranges.len() {
@@ -897,8 +897,11 @@ impl<'a, F: Function> Env<'a, F> {
                             }
 
                             trace!(" -> duplicate; switching to constraint Any");
+                            // The copy must be made before the instruction
+                            // even if the use is at its late point.
+                            let fixup_pos = ProgPoint::before(u.pos.inst());
                             self.ctx.multi_fixed_reg_fixups.push(MultiFixedRegFixup {
-                                pos: u.pos,
+                                pos: fixup_pos,
                                 from_slot: source_slot,
                                 to_slot: u.slot,
                                 to_preg: preg_idx,
@@ -912,16 +915,16 @@ impl<'a, F: Function> Env<'a, F> {
                                 u.operand.pos(),
                             );
                             trace!(" -> extra clobber {} at inst{}", preg, u.pos.inst().index());
-                            extra_clobbers.push((preg, u.pos));
+                            let range = CodeRange {
+                                from: fixup_pos,
+                                to: u.pos.next(),
+                            };
+                            extra_clobbers.push((preg, range));
                         }
                     }
                 }
 
-                for (clobber, pos) in extra_clobbers.drain(..) {
-                    let range = CodeRange {
-                        from: pos,
-                        to: pos.next(),
-                    };
+                for (clobber, range) in extra_clobbers.drain(..) {
                     self.add_liverange_to_preg(range, clobber);
                 }
             }
-- 
2.43.0


From a55ffc80cd60970d3d7ad54809945f44015707ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 04/27] fix: look up the sources of multi-fixed-reg copies
 before rewriting allocations

---
 src/ion/moves.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index ddabd9d..6a2c9f0 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -661,9 +661,16 @@ impl<'a, F: Function> Env<'a, F> {
             }
         }
 
-        // Handle multi-fixed-reg constraints by copying.
-        for fixup in core::mem::replace(&mut self.multi_fixed_reg_fixups, vec![]) {
-            let from_alloc = self.get_alloc(fixup.pos.inst(), fixup.from_slot as usize);
+        // Handle multi-fixed-reg constraints by copying. The source of every
+        // copy is looked up before any allocation is rewritten: the slot that
+        // a copy is made from may itself be the target of another copy, and
+        // the copies at one point are made in parallel.
+        let fixups = core::mem::replace(&mut self.multi_fixed_reg_fixups, vec![]);
+        let from_allocs: Vec<Allocation> = fixups
+            .iter()
+            .map(|fixup| self.get_alloc(fixup.pos.inst(), fixup.from_slot as usize))
+            .collect();
+        for (fixup, from_alloc) in fixups.into_iter().zip(from_allocs) {
             let to_alloc = Allocation::reg(PReg::from_index(fixup.to_preg.index()));
             trace!(
                 "multi-fixed-move constraint at {:?} from {} to {} for v{}",
-- 
2.43.0


From e798074cc4bd115b0fb280b8b2fe893b419cb31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 05/27] fix: account for other uses of a reused input when
 several inputs are reused

---
 src/ion/liveranges.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 84f8dfe..f229edd 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -473,14 +473,21 @@ impl<'a, F: Function> Env<'a, F> {
                 // outputs? This is important below to establish
                 // proper interference wrt other inputs. We note the
                 // *vreg* that is reused, not the index.
+                //
+                // If inputs of different vregs are reused, then any
+                // other use of the vreg noted here interferes with
+                // the outputs that reuse the other inputs as well.
                 let mut reused_input = None;
+                let mut reused_slots: SmallVec<[usize; 4]> = smallvec![];
+                let mut multiple_reused_vregs = false;
                 for op in self.func.inst_operands(inst) {
                     if let OperandConstraint::Reuse(i) = op.constraint() {
                         debug_assert!(self.func.inst_operands(inst)[i]
                             .as_fixed_nonallocatable()
                             .is_none());
-                        reused_input = Some(self.func.inst_operands(inst)[i].vreg());
-                        break;
+                        let vreg = self.func.inst_operands(inst)[i].vreg();
+                        multiple_reused_vregs |= *reused_input.get_or_insert(vreg) != vreg;
+                        reused_slots.push(i);
                     }
                 }
 
@@ -605,7 +612,9 @@ impl<'a, F: Function> Env<'a, F> {
                             // input-that-is-reused/output.
                             (OperandKind::Use, OperandPos::Early)
                                 if reused_input.is_some()
-                                    && reused_input.unwrap() != operand.vreg() =>
+                                    && (reused_input.unwrap() != operand.vreg()
+                                        || (multiple_reused_vregs
+                                            && !reused_slots.contains(&i))) =>
                             {
                                 ProgPoint::after(inst)
                             }
-- 
2.43.0


From 22586ad8bc84648ed92efd00b9f9f4052578c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 06/27] fix: fastalloc: store a def to its spillslot from the
 def's own allocation

---
 src/fastalloc/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 0dfdb13..c357b56 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1144,10 +1144,13 @@ impl<'a, F: Function> Env<'a, F> {
         let slot = self.vreg_spillslots[op.vreg().vreg()];
         if slot.is_valid() {
             self.vreg_to_live_inst_range[op.vreg().vreg()].2 = Allocation::stack(slot);
-            let curr_alloc = self.vreg_allocs[op.vreg().vreg()];
+            // This move comes before any move from the def's allocation to the
+            // allocation in which the vreg is expected after this instruction, so
+            // the value is only in the def's own allocation at this point.
+            let def_alloc = self.allocs[(inst.index(), op_idx)];
             let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if curr_alloc != new_alloc {
-                self.add_move(inst, curr_alloc, new_alloc, op.class(), InstPosition::After)?;
+            if def_alloc != new_alloc {
+                self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
         self.vreg_to_live_inst_range[op.vreg().vreg()].0 = ProgPoint::after(inst);
-- 
2.43.0


From 2626e233304103a34c1fb76fabe43ca6767862ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 07/27] fix: fastalloc: forget the register of a vreg that was
 evicted or moved to its spillslot

---
 src/fastalloc/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index c357b56..005032c 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -164,6 +164,7 @@ impl<'a, F: Function> State<'a, F> {
         }
         let slot = self.vreg_spillslots[evicted_vreg.vreg()];
         self.vreg_allocs[evicted_vreg.vreg()] = Allocation::stack(slot);
+        self.vreg_in_preg[preg.index()] = VReg::invalid();
         trace!("Move reason: eviction");
         self.add_move(
             inst,
@@ -1003,6 +1004,10 @@ impl<'a, F: Function> Env<'a, F> {
                     self.live_vregs.insert(*vreg);
                     self.vreg_to_live_inst_range[vreg.vreg()].1 = ProgPoint::before(inst);
                 } else if curr_alloc != vreg_spill {
+                    if let Some(preg) = curr_alloc.as_reg() {
+                        // The vreg is now in its spillslot.
+                        self.vreg_in_preg[preg.index()] = VReg::invalid();
+                    }
                     self.add_move(
                         inst,
                         vreg_spill,
-- 
2.43.0


From dad6da79bb001520cd2381a14bf567cc3148c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 08/27] fix: fastalloc: process blocks in postorder so that
 uses are seen before defs in any block layout

---
 doc/FASTALLOC.md     | 11 +++++++----
 src/fastalloc/mod.rs | 25 ++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/doc/FASTALLOC.md b/doc/FASTALLOC.md
index bf38f79..e9057f3 100644
--- a/doc/FASTALLOC.md
+++ b/doc/FASTALLOC.md
@@ -90,8 +90,9 @@ the operand instead of a spillslot.
 
 # Allocation Process Breakdown
 
-Allocation proceeds in reverse: from the last block to the first block,
-and in each block: from the last instruction to the first instruction.
+Allocation proceeds in reverse: blocks in postorder (every block before
+the blocks that dominate it, however they are laid out), and in each
+block: from the last instruction to the first instruction.
 
 The allocation for each operand in an instruction can be viewed to happen
 in four phases: selection, assignment, eviction, and edit insertion.
@@ -345,8 +346,10 @@ constraints are not supported and aren't handled.
 `regalloc2`'s outward interface guarantees that edits are in
 sorted order. Since allocation proceeds in reverse, all edits
 are also added in reverse. After all blocks have completed
-processing the edits are simply reversed to put it in the
-correct order.
+processing the edits are simply reversed to put the edits of
+every block in the correct order, and then stably sorted by
+program point, because blocks are processed in postorder, which
+need not be the reverse of the order they are laid out in.
 
 One of the reasons why the allocation order proceeds the way it
 does is because of this edit-order constraint. All edits that
diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 005032c..aa9fa1e 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1,5 +1,5 @@
 use crate::moves::{MoveAndScratchResolver, ParallelMoves};
-use crate::{cfg::CFGInfo, ion::Stats, Allocation, RegAllocError};
+use crate::{cfg::CFGInfo, ion::Stats, postorder, Allocation, RegAllocError};
 use crate::{ssa::validate_ssa, Edit, Function, MachineEnv, Output, ProgPoint};
 use crate::{
     AllocationKind, Block, FxHashMap, Inst, InstPosition, Operand, OperandConstraint, OperandKind,
@@ -1594,11 +1594,30 @@ impl<'a, F: Function> Env<'a, F> {
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-        debug_assert_eq!(self.func.entry_block().index(), 0);
+        // Blocks are processed in postorder, so that every block is processed
+        // before the blocks that dominate it and all uses of a vreg have been seen
+        // when its def is reached, in whatever order the blocks are laid out.
+        // Unreachable blocks come first.
+        let mut postorder = vec![];
+        let mut reachable = vec![];
+        postorder::calculate(
+            self.func.num_blocks(),
+            self.func.entry_block(),
+            &mut reachable,
+            &mut postorder,
+            |block| self.func.block_succs(block),
+        )?;
         for block in (0..self.func.num_blocks()).rev() {
-            self.alloc_block(Block::new(block))?;
+            if !reachable[block] {
+                self.alloc_block(Block::new(block))?;
+            }
+        }
+        for block in postorder {
+            self.alloc_block(block)?;
         }
         self.state.edits.reverse();
+        // The edits of every block are in order now, the blocks may not be.
+        self.state.edits.sort_by_key(|&(point, _)| point);
         self.build_debug_info();
         Ok(())
     }
-- 
2.43.0


From fcf0ab2c726ba31d359f3a67ba71b470451590a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 09/27] fix: fastalloc: sort debug locations by program point
 within a label

---
 src/fastalloc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index aa9fa1e..387bcfe 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1590,7 +1590,7 @@ impl<'a, F: Function> Env<'a, F> {
                     .push((label, point_start, point_end, alloc));
             }
         }
-        self.debug_locations.sort_by_key(|loc| loc.0);
+        self.debug_locations.sort_unstable();
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-- 
2.43.0


From 241d8ea50ac89263ff6435e277a71a3aaf3c91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 10/27] fix: make the debug locations of a label disjoint

---
 src/ion/moves.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index 6a2c9f0..279ed57 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -779,6 +779,26 @@ impl<'a, F: Function> Env<'a, F> {
         // invariant to the client.
         self.output.debug_locations.sort_unstable();
 
+        // We also guarantee that the locations of a label are disjoint. A
+        // vreg may be in more than one place at once (e.g. in its spill slot
+        // and in the register of a minimal bundle); keep the first location
+        // at every program point.
+        let mut covered: Option<(u32, ProgPoint)> = None;
+        self.output
+            .debug_locations
+            .retain_mut(|&mut (label, ref mut from, to, _)| {
+                if let Some((covered_label, covered_to)) = covered {
+                    if covered_label == label {
+                        *from = core::cmp::max(*from, covered_to);
+                    }
+                }
+                if *from >= to {
+                    return false;
+                }
+                covered = Some((label, to));
+                true
+            });
+
         inserted_moves
     }
 
-- 
2.43.0


From 75afc8d10afc1ea70f405ab67f08855dea357a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 11/27] fix: do not look before the first program point in the
 too-many-live-registers check

---
 src/ion/process.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index a6e5db9..c7cbbb9 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -1226,9 +1226,11 @@ impl<'a, F: Function> Env<'a, F> {
                         .chain(self.env.non_preferred_regs_by_class[class as u8 as usize])
                     {
                         trace!(" -> PR {:?}", preg);
+                        // There is no point before the very first one.
+                        let before = ProgPoint::from_index(range.from.to_index().saturating_sub(1));
                         let start = LiveRangeKey::from_range(&CodeRange {
-                            from: range.from.prev(),
-                            to: range.from.prev(),
+                            from: before,
+                            to: before,
                         });
                         for (key, lr) in self.ctx.pregs[preg.index()]
                             .allocations
-- 
2.43.0


From f7a08c0d7a479b7d7f353a477cafbd8c44de026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 12/27] verif: expose internal building blocks under
 cfg(regalloc2_verif)

---
 src/fastalloc/mod.rs |  6 ++++++
 src/lib.rs           | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 387bcfe..fb7aa62 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -19,6 +19,12 @@ use iter::*;
 use lru::*;
 use vregset::VRegSet;
 
+#[cfg(regalloc2_verif)]
+pub mod verif {
+    pub use super::lru::Lru;
+    pub use super::vregset::VRegSet;
+}
+
 #[cfg(test)]
 mod tests;
 
diff --git a/src/lib.rs b/src/lib.rs
index 5eab7d3..f8c808b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,7 @@
 
 #![allow(dead_code)]
 #![allow(clippy::all)]
+#![allow(unexpected_cfgs)]
 #![no_std]
 
 #[cfg(feature = "fuzzing")]
@@ -64,6 +65,26 @@ pub mod checker;
 #[cfg(feature = "fuzzing")]
 pub mod fuzzing;
 
+/// Internal building blocks, exposed to external verification harnesses when
+/// built with `--cfg regalloc2_verif`.
+#[cfg(regalloc2_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::cfg::{CFGInfo, CFGInfoCtx};
+    pub use crate::fastalloc::verif::*;
+    pub use crate::ion::redundant_moves::{RedundantMoveAction, RedundantMoveEliminator};
+    pub use crate::ion::reg_traversal::RegTraversalIter;
+    pub use crate::ion::requirement::{Requirement, RequirementConflict};
+    pub use crate::moves::{MoveAndScratchResolver, MoveVec, MoveVecWithScratch, ParallelMoves};
+    pub use crate::ssa::validate_ssa;
+    pub mod domtree {
+        pub use crate::domtree::*;
+    }
+    pub mod postorder {
+        pub use crate::postorder::*;
+    }
+}
+
 #[cfg(feature = "enable-serde")]
 pub mod serialize;
 
-- 
2.43.0


From 71f478bb497329157fddb23dffdefe29d9b5154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 13/27] fix: PRegSet::add_up_to keeps the registers already in
 the set

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f8c808b..aa58ca3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,7 +331,7 @@ impl PRegSet {
         for i in 0..index {
             self.bits[i] = !0;
         }
-        self.bits[index] = (1 << bit) - 1;
+        self.bits[index] |= (1 << bit) - 1;
     }
 }
 
-- 
2.43.0


From 151924fe7141c3b9b60183318a03645afcb875e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 14/27] fix: Allocation::from_bits accepts the encodings of
 valid allocations

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index aa58ca3..c61c737 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1210,7 +1210,7 @@ impl Allocation {
     /// Construct an allocation from its packed encoding.
     #[inline(always)]
     pub fn from_bits(bits: u32) -> Self {
-        debug_assert!(bits >> 29 >= 5);
+        debug_assert!(bits >> 29 <= 2);
         Self { bits }
     }
 }
-- 
2.43.0


From d37dfc0f27590139d34b42be9dc7004f2c7138cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 15/27] fix: fastalloc: do not emit debug locations that end
 before they start

---
 src/fastalloc/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index fb7aa62..9439f7a 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1591,7 +1591,12 @@ impl<'a, F: Function> Env<'a, F> {
         trace!("Building debug location info");
         for &(vreg, start, end, label) in self.func.debug_value_labels() {
             let (point_start, point_end, alloc) = self.vreg_to_live_inst_range[vreg.vreg()];
-            if point_start.inst() <= start && end <= point_end.inst().next() {
+            // When the blocks are not laid out in dominance order, a live range
+            // may end at a point before its start; no range of points covers it.
+            if point_start < point_end
+                && point_start.inst() <= start
+                && end <= point_end.inst().next()
+            {
                 self.debug_locations
                     .push((label, point_start, point_end, alloc));
             }
-- 
2.43.0


From 93d1814f318b1bef8736aa275ecf95c9a958d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 16/27] fix: checker: a move from an unknown source makes its
 destination unknown

---
 src/checker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checker.rs b/src/checker.rs
index 58719e6..9a91568 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -549,7 +549,8 @@ impl CheckerState {
                 // saves a victim register elsewhere. (In other words,
                 // that sequence saves an undefined value and restores
                 // it, so has no effect.) The checker needs to avoid
-                // putting Universe lattice values into the map.
+                // putting Universe lattice values into the map, but
+                // the destination no longer holds what it held before.
                 if let Some(val) = self.get_value(&from).cloned() {
                     trace!(
                         "checker: checkinst {:?} updating: move {:?} -> {:?} val {:?}",
@@ -559,6 +560,8 @@ impl CheckerState {
                         val
                     );
                     self.set_value(into, val);
+                } else {
+                    self.remove_value(&into);
                 }
             }
             &CheckerInst::ParallelMove { ref moves } => {
-- 
2.43.0


From 9f6b3eda7ff9ca9140eaf1216495d56d61aab2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 17/27] fix: checker: check late operands of instructions with
 reused inputs

---
 src/checker.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 9a91568..7cdeed5 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -482,16 +482,6 @@ impl CheckerState {
                 ref allocs,
                 ..
             } => {
-                // Skip Use-checks at the After point if there are any
-                // reused inputs: the Def which reuses the input
-                // happens early.
-                let has_reused_input = operands
-                    .iter()
-                    .any(|op| matches!(op.constraint(), OperandConstraint::Reuse(_)));
-                if has_reused_input && pos == InstPosition::After {
-                    return Ok(());
-                }
-
                 // For each operand, check (i) that the allocation
                 // contains the expected vreg, and (ii) that it meets
                 // the requirements of the OperandConstraint.
-- 
2.43.0


From f134ef59f946ba69bca2c7cb45b7bcd47500f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 18/27] fix: checker: a limit constraint rejects stack
 locations

---
 src/checker.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 7cdeed5..4e44bac 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -670,15 +670,20 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Limit(max) => {
-                if let Some(preg) = alloc.as_reg() {
-                    if preg.hw_enc() >= max {
-                        return Err(CheckerError::AllocationOutsideLimit {
-                            inst,
-                            op,
-                            alloc,
-                            range: (0..max),
-                        });
+                // As for `Reg`, pregs that represent a fixed stack slot
+                // are not registers.
+                match alloc.as_reg() {
+                    Some(preg) if !checker.stack_pregs.contains(preg) => {
+                        if preg.hw_enc() >= max {
+                            return Err(CheckerError::AllocationOutsideLimit {
+                                inst,
+                                op,
+                                alloc,
+                                range: (0..max),
+                            });
+                        }
                     }
+                    _ => return Err(CheckerError::AllocationIsNotReg { inst, op, alloc }),
                 }
             }
         }
-- 
2.43.0


From 1874a6b15d2a7143ccd3d676fd55aaf9b6b95b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 19/27] fix: checker: do not depend on block order

---
 src/checker.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/checker.rs b/src/checker.rs
index 4e44bac..ccb52d5 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -747,7 +747,7 @@ impl<'a, F: Function> Checker<'a, F> {
             }
         }
 
-        bb_in.insert(f.entry_block(), CheckerState::default());
+        bb_in.insert(f.entry_block(), CheckerState::initial());
 
         let mut stack_pregs = PRegSet::empty();
         for &preg in &machine_env.fixed_stack_slots {
@@ -860,6 +860,12 @@ impl<'a, F: Function> Checker<'a, F> {
             queue_set.remove(&block);
             let mut state = self.bb_in.get(&block).cloned().unwrap();
             trace!("analyze: block {} has state {:?}", block.index(), state);
+            if state == CheckerState::Top {
+                // No predecessor has been analyzed yet, so this block
+                // has nothing to tell its successors. We will come
+                // back to it if it is reachable.
+                continue;
+            }
             for inst in self.bb_insts.get(&block).unwrap() {
                 state.update(inst);
                 trace!("analyze: inst {:?} -> state {:?}", inst, state);
@@ -911,6 +917,10 @@ impl<'a, F: Function> Checker<'a, F> {
     fn find_errors(&self) -> Result<(), CheckerErrors> {
         let mut errors = vec![];
         for (block, input) in &self.bb_in {
+            if *input == CheckerState::Top {
+                // Unreachable block.
+                continue;
+            }
             let mut state = input.clone();
             for inst in self.bb_insts.get(block).unwrap() {
                 if let Err(e) = state.check(InstPosition::Before, inst, self) {
-- 
2.43.0


From 1e67086effd349413a198215a44b0cc71ee407e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 20/27] fix: validate_ssa reports uses of out-of-range vregs
 instead of panicking

---
 src/ssa.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 29a82cf..6fafb32 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -49,6 +49,14 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
         let block = Block::new(block);
         local.clear();
         local.extend(f.block_params(block));
+        let is_defined = |vreg: VReg, local: &FxHashSet<VReg>| match defined_in.get(vreg.vreg()) {
+            Some(&def_block) if def_block == block => local.contains(&vreg),
+            Some(&def_block) => def_block.is_valid() && cfginfo.dominates(def_block, block),
+            None => {
+                trace!("VRegs not numbered consecutively {:?}", vreg);
+                false
+            }
+        };
 
         for iix in f.block_insns(block).iter() {
             let operands = f.inst_operands(iix);
@@ -61,14 +69,7 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
 
                 match operand.kind() {
                     OperandKind::Use => {
-                        let def_block = defined_in[operand.vreg().vreg()];
-                        let okay = def_block.is_valid()
-                            && if def_block == block {
-                                local.contains(&operand.vreg())
-                            } else {
-                                cfginfo.dominates(def_block, block)
-                            };
-                        if !okay {
+                        if !is_defined(operand.vreg(), &local) {
                             trace!("Invalid use {:?}", operand.vreg());
                             return Err(RegAllocError::SSA(operand.vreg(), iix));
                         }
-- 
2.43.0


From 241fc14e7895420dc11e8679d8b8d6f057667217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 21/27] fix: validate_ssa checks branch arguments as uses

---
 src/ssa.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ssa.rs b/src/ssa.rs
index 6fafb32..d3fc624 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -89,6 +89,18 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
                     local.insert(operand.vreg());
                 }
             }
+
+            // The arguments of a branch are uses as well.
+            if iix == f.block_insns(block).last() && f.is_branch(iix) {
+                for succ_idx in 0..f.block_succs(block).len() {
+                    for &arg in f.branch_blockparams(block, iix, succ_idx) {
+                        if !is_defined(arg, &local) {
+                            trace!("Invalid branch argument {:?}", arg);
+                            return Err(RegAllocError::SSA(arg, iix));
+                        }
+                    }
+                }
+            }
         }
     }
 
-- 
2.43.0


From ce213c11a2618554c7dd8d54eeac75b024ae388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 22/27] fix: ion: a range that begins with an early def is
 never extended backward

The check that keeps such a range apart did not apply to functions that
allow multiple defs of a vreg by one instruction.
---
 src/ion/liveranges.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index f229edd..dbd1c77 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -188,16 +188,18 @@ impl<'a, F: Function> Env<'a, F> {
             );
         }
 
-        // A range that begins with a def must not be extended backward,
-        // even if the new range is contiguous with it: this happens when
-        // blocks are not in RPO, the first instruction of a block has an
-        // early def, and the vreg is live-out of the block that precedes
-        // it in program order. The value does not flow from one range to
-        // the other.
+        // A range that begins with an early def must not be extended
+        // backward, even if the new range is contiguous with it: this
+        // happens when blocks are not in RPO, the first instruction of a
+        // block has an early def, and the vreg is live-out of the block
+        // that precedes it in program order. The value does not flow
+        // from one range to the other. (A range that begins with a late
+        // def is only contiguous with one that begins with an early def
+        // of the same instruction, if it may define a vreg repeatedly.)
         let following_range_starts_at_def = match self.vregs[vreg].ranges.last() {
             Some(entry) => {
-                !self.func.allow_multiple_vreg_defs()
-                    && self.ranges[entry.index].has_flag(LiveRangeFlag::StartsAtDef)
+                self.ranges[entry.index].has_flag(LiveRangeFlag::StartsAtDef)
+                    && self.ranges[entry.index].range.from.pos() == InstPosition::Before
             }
             None => false,
         };
-- 
2.43.0


From 1b932dacb0abfe95e0e4e22028a21092beeba330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 23/27] fix: validate_ssa accepts repeated defs where the
 function allows them

---
 src/ssa.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index d3fc624..aef1534 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -32,8 +32,18 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
             def(param, Inst::invalid())?;
         }
         for inst in f.block_insns(block).iter() {
-            for operand in f.inst_operands(inst) {
+            let operands = f.inst_operands(inst);
+            for (i, operand) in operands.iter().enumerate() {
                 if let OperandKind::Def = operand.kind() {
+                    // An instruction may be allowed to define a vreg
+                    // several times, which counts as one definition.
+                    if f.allow_multiple_vreg_defs()
+                        && operands[..i].iter().any(|other| {
+                            other.kind() == OperandKind::Def && other.vreg() == operand.vreg()
+                        })
+                    {
+                        continue;
+                    }
                     def(operand.vreg(), inst)?;
                 }
             }
-- 
2.43.0


From dfac0a61dee9fc0f9fa9f02b139d32fbb107c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 24/27] fix: ion: keep several defs of a vreg by one
 instruction together when splitting

Splitting put these defs in separate bundles, which could get different
allocations or never become minimal.
---
 src/ion/process.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index c7cbbb9..d56e142 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -301,11 +301,15 @@ impl<'a, F: Function> Env<'a, F> {
                 }
             }
             // Minimal if there is only one LR and only up to one use
-            // in that LR, and extent of range is consistent with the
-            // "minimal range for use" definition.
+            // (or several defs by one instruction) in that LR, and
+            // extent of range is consistent with the "minimal range
+            // for use" definition.
+            let all_defs = |uses: &[Use]| uses.iter().all(|u| u.operand.kind() == OperandKind::Def);
             minimal = match &first_range_data.uses[..] {
                 [] => true,
-                [only_use] => {
+                [only_use, others @ ..]
+                    if others.is_empty() || all_defs(&first_range_data.uses) =>
+                {
                     // We use a "contains" rather than "exact" range
                     // check because a smaller-than-min range is also
                     // OK, if some logic produced it for a valid
@@ -849,17 +853,37 @@ impl<'a, F: Function> Env<'a, F> {
             let mut spill_starts_def = false;
 
             let empty_vec = UseList::new_in(self.ctx.bump());
-            for u in core::mem::replace(&mut self.ctx.ranges[entry.index].uses, empty_vec) {
+            let uses = core::mem::replace(&mut self.ctx.ranges[entry.index].uses, empty_vec);
+
+            // An instruction may be allowed to define a vreg several times
+            // (see `Function::allow_multiple_vreg_defs`). All of these defs
+            // get the same allocation, so they need to stay together.
+            let is_constrained_def = |u: &Use| {
+                u.operand.kind() == OperandKind::Def
+                    && u.operand.constraint() != OperandConstraint::Any
+            };
+            let has_constrained_def = uses.iter().any(is_constrained_def);
+            let mut def_lr = None;
+
+            for u in uses {
                 trace!("   -> use {:?}", u);
 
                 let is_def = u.operand.kind() == OperandKind::Def;
 
+                if let (true, Some(lr)) = (is_def, def_lr) {
+                    trace!("    -> adding this def to {:?}", lr);
+                    self.ctx.ranges[lr].uses.push(u);
+                    continue;
+                }
+
                 // If this use has an `any` constraint, eagerly migrate it to the spill range. The
                 // reasoning here is that in the second-chance allocation for the spill bundle,
                 // any-constrained uses will be easy to satisfy. Solving those constraints earlier
                 // could create unnecessary conflicts with existing bundles that need to fit in a
                 // register, more strict requirements, so we delay them eagerly.
-                if u.operand.constraint() == OperandConstraint::Any {
+                if u.operand.constraint() == OperandConstraint::Any
+                    && !(is_def && has_constrained_def)
+                {
                     trace!("    -> migrating this any-constrained use to the spill range");
                     spill_uses.push(u);
 
@@ -901,6 +925,7 @@ impl<'a, F: Function> Env<'a, F> {
                 // If this use was a Def, set the StartsAtDef flag for the new LR.
                 if is_def {
                     self.ctx.ranges[lr].set_flag(LiveRangeFlag::StartsAtDef);
+                    def_lr = Some(lr);
                 }
 
                 trace!(
-- 
2.43.0


From e3a66ff1403cf486a24d064138f0625bcd1fd094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 25/27] fix: fastalloc: no moves after a branch

---
 src/fastalloc/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 9439f7a..d46021b 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -900,7 +900,9 @@ impl<'a, F: Function> Env<'a, F> {
             // used (in `prev_alloc`, that is).
             else {
                 trace!("Move reason: Prev allocation doesn't meet constraints");
-                if op.kind() == OperandKind::Def {
+                // Nothing can be moved after a branch: a vreg that is defined on one is
+                // moved at the beginning of the successors.
+                if op.kind() == OperandKind::Def && !self.func.is_branch(inst) {
                     trace!("Adding edit from {new_alloc:?} to {curr_alloc:?} after inst {inst:?} for {op}");
                     self.add_move(inst, new_alloc, curr_alloc, op.class(), InstPosition::After)?;
                 }
@@ -1160,7 +1162,7 @@ impl<'a, F: Function> Env<'a, F> {
             // the value is only in the def's own allocation at this point.
             let def_alloc = self.allocs[(inst.index(), op_idx)];
             let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if def_alloc != new_alloc {
+            if def_alloc != new_alloc && !self.func.is_branch(inst) {
                 self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
-- 
2.43.0


From ebd535c1f2e0efe45e7848c9121072075530ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 26/27] fix: fastalloc: defs on a branch reach every use, not
 only the first block parameter

---
 src/fastalloc/mod.rs | 160 ++++++++++++++++++++++++-------------------
 1 file changed, 91 insertions(+), 69 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index d46021b..734ab5b 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -254,37 +254,60 @@ impl<'a, F: Function> State<'a, F> {
         Ok(())
     }
 
+    /// The first block param that `block`'s branch passes `vreg` to.
+    fn first_param_passed_to(&self, block: Block, vreg: VReg) -> Option<VReg> {
+        let inst = self.func.block_insns(block).last();
+        self.func
+            .block_succs(block)
+            .iter()
+            .enumerate()
+            .find_map(|(succ_idx, &succ)| {
+                let args = self.func.branch_blockparams(block, inst, succ_idx);
+                let param_idx = args.iter().position(|&arg| arg == vreg)?;
+                Some(self.func.block_params(succ)[param_idx])
+            })
+    }
+
     /// Given that `pred` is a predecessor of `block`, check if `vreg` is defined on `pred`s branch instruction
-    /// in a fixed register and if it is, insert an edit to move from that fixed register to `slot` at the beginning of `block`.
+    /// and if it is, and `slot` isn't where it is defined, insert an edit to move it to `slot` at the beginning
+    /// of `block`.
+    /// Only vregs defined in a register are moved if `in_reg`, and only vregs defined in a stack
+    /// location if not.
     fn move_if_def_pred_branch(
         &mut self,
         block: Block,
         pred: Block,
         vreg: VReg,
         slot: SpillSlot,
+        in_reg: bool,
     ) -> Result<(), RegAllocError> {
         let pred_last_inst = self.func.block_insns(pred).last();
-        let move_from = self.func.inst_operands(pred_last_inst)
+        let Some(op) = self
+            .func
+            .inst_operands(pred_last_inst)
             .iter()
-            .find_map(|op| if op.kind() == OperandKind::Def && op.vreg() == vreg {
-                if self.func.block_preds(block).len() > 1 {
-                    panic!("Multiple predecessors when a branch arg/livein is defined on the branch");
-                }
-                match op.constraint() {
-                    OperandConstraint::FixedReg(reg) => {
-                        trace!("Vreg {vreg} defined on pred {pred:?} branch");
-                        Some(Allocation::reg(reg))
-                    },
-                    // In these cases, the vreg is defined directly into the block param
-                    // spillslot.
-                    OperandConstraint::Stack | OperandConstraint::Any => None,
-                    constraint => panic!("fastalloc does not support using any-reg or reuse constraints ({}) defined on a branch instruction as a branch arg/livein on the same instruction", constraint),
-                }
-            } else {
-                None
-            });
-        if let Some(from) = move_from {
-            let to = Allocation::stack(slot);
+            .find(|op| op.kind() == OperandKind::Def && op.vreg() == vreg)
+        else {
+            return Ok(());
+        };
+        if self.func.block_preds(block).len() > 1 {
+            panic!("Multiple predecessors when a branch arg/livein is defined on the branch");
+        }
+        let move_from = match op.constraint() {
+            OperandConstraint::FixedReg(reg) => {
+                trace!("Vreg {vreg} defined on pred {pred:?} branch");
+                Some(Allocation::reg(reg))
+            }
+            OperandConstraint::Stack | OperandConstraint::Any => {
+                // In these cases, the vreg is defined directly into the spillslot of the
+                // first block param that it is passed to, if any.
+                self.first_param_passed_to(pred, vreg)
+                    .map(|param| Allocation::stack(self.get_spillslot(param)))
+            }
+            constraint => panic!("fastalloc does not support using any-reg or reuse constraints ({}) defined on a branch instruction as a branch arg/livein on the same instruction", constraint),
+        };
+        let to = Allocation::stack(slot);
+        if let Some(from) = move_from.filter(|&from| from != to && self.is_stack(from) != in_reg) {
             trace!("Inserting edit to move from {from} to {to}");
             self.add_move(
                 self.func.block_insns(block).first(),
@@ -1121,30 +1144,20 @@ impl<'a, F: Function> Env<'a, F> {
             // If the defined vreg is used as a branch arg and it has an
             // any or stack constraint, define it into the block param spillslot
             let mut param_spillslot = None;
-            'outer: for (succ_idx, succ) in self.func.block_succs(block).iter().cloned().enumerate()
-            {
-                for (param_idx, branch_arg_vreg) in self
-                    .func
-                    .branch_blockparams(block, inst, succ_idx)
-                    .iter()
-                    .cloned()
-                    .enumerate()
-                {
-                    if op.vreg() == branch_arg_vreg {
-                        if matches!(
-                            op.constraint(),
-                            OperandConstraint::Any | OperandConstraint::Stack
-                        ) {
-                            let block_param = self.func.block_params(succ)[param_idx];
-                            param_spillslot = Some(self.get_spillslot(block_param));
-                        }
-                        break 'outer;
-                    }
+            if matches!(
+                op.constraint(),
+                OperandConstraint::Any | OperandConstraint::Stack
+            ) {
+                if let Some(block_param) = self.first_param_passed_to(block, op.vreg()) {
+                    param_spillslot = Some(self.get_spillslot(block_param));
                 }
             }
             if let Some(param_spillslot) = param_spillslot {
                 let spillslot = self.vreg_spillslots[op.vreg().vreg()];
                 self.vreg_spillslots[op.vreg().vreg()] = param_spillslot;
+                if self.vreg_allocs[op.vreg().vreg()].is_some() {
+                    self.vreg_allocs[op.vreg().vreg()] = Allocation::stack(param_spillslot);
+                }
                 let op = Operand::new(op.vreg(), OperandConstraint::Stack, op.kind(), op.pos());
                 self.process_operand_allocation(inst, op, op_idx)?;
                 self.vreg_spillslots[op.vreg().vreg()] = spillslot;
@@ -1465,8 +1478,9 @@ impl<'a, F: Function> Env<'a, F> {
             )?;
         }
         // Reset this, in case a fixed reg used by a branch arg defined on the branch
-        // is used as a scratch reg in the previous loop.
-        self.state.scratch_regs = self.state.dedicated_scratch_regs.clone();
+        // is used as a scratch reg in the previous loop. No vreg is in a register
+        // before the moves made so far.
+        self.reset_available_pregs_and_scratch_regs();
 
         let get_succ_idx_of_pred = |pred, func: &F| {
             for (idx, pred_succ) in func.block_succs(pred).iter().enumerate() {
@@ -1482,34 +1496,42 @@ impl<'a, F: Function> Env<'a, F> {
         trace!(
             "Checking for predecessor branch args/livein vregs defined in the branch with fixed-reg constraint"
         );
-        for (param_idx, block_param) in self.func.block_params(block).iter().cloned().enumerate() {
-            // Block param is never used. Don't bother.
-            if self.state.vreg_spillslots[block_param.vreg()].is_invalid() {
-                continue;
-            }
-            for pred in self.func.block_preds(block).iter().cloned() {
-                let pred_last_inst = self.func.block_insns(pred).last();
-                let curr_block_succ_idx = get_succ_idx_of_pred(pred, self.func);
-                let branch_arg_for_param =
-                    self.func
-                        .branch_blockparams(pred, pred_last_inst, curr_block_succ_idx)[param_idx];
-                // If the branch arg is defined in the branch instruction, the move will have to be done
-                // here, instead of at the end of the predecessor block.
-                self.state.move_if_def_pred_branch(
-                    block,
-                    pred,
-                    branch_arg_for_param,
-                    self.state.vreg_spillslots[block_param.vreg()],
-                )?;
+        // Edits are added in reverse: the vregs that are in registers are moved first,
+        // before a move between stack locations can take those registers.
+        for in_reg in [false, true] {
+            for (param_idx, block_param) in
+                self.func.block_params(block).iter().cloned().enumerate()
+            {
+                // Block param is never used. Don't bother.
+                if self.state.vreg_spillslots[block_param.vreg()].is_invalid() {
+                    continue;
+                }
+                for pred in self.func.block_preds(block).iter().cloned() {
+                    let pred_last_inst = self.func.block_insns(pred).last();
+                    let curr_block_succ_idx = get_succ_idx_of_pred(pred, self.func);
+                    let branch_arg_for_param =
+                        self.func
+                            .branch_blockparams(pred, pred_last_inst, curr_block_succ_idx)
+                            [param_idx];
+                    // If the branch arg is defined in the branch instruction, the move will have to be done
+                    // here, instead of at the end of the predecessor block.
+                    self.state.move_if_def_pred_branch(
+                        block,
+                        pred,
+                        branch_arg_for_param,
+                        self.state.vreg_spillslots[block_param.vreg()],
+                        in_reg,
+                    )?;
+                }
             }
-        }
-        for vreg in self.live_vregs.iter() {
-            for pred in self.func.block_preds(block).iter().cloned() {
-                let slot = self.state.vreg_spillslots[vreg.vreg()];
-                // Move from the reg into its spillslot if it's defined in a predecessor's
-                // branch instruction.
-                self.state
-                    .move_if_def_pred_branch(block, pred, vreg, slot)?;
+            for vreg in self.live_vregs.iter() {
+                for pred in self.func.block_preds(block).iter().cloned() {
+                    let slot = self.state.vreg_spillslots[vreg.vreg()];
+                    // Move it into its spillslot if it's defined in a predecessor's
+                    // branch instruction.
+                    self.state
+                        .move_if_def_pred_branch(block, pred, vreg, slot, in_reg)?;
+                }
             }
         }
         if trace_enabled!() {
-- 
2.43.0


From 91dabcb9401798c5bf4f362b55cee43e0ad11d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 27/27] verif hook: expose IndexSet::is_empty

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c61c737..c53b76d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,6 +77,10 @@ pub mod verif {
     pub use crate::ion::requirement::{Requirement, RequirementConflict};
     pub use crate::moves::{MoveAndScratchResolver, MoveVec, MoveVecWithScratch, ParallelMoves};
     pub use crate::ssa::validate_ssa;
+    /// Does the set say that it is empty?
+    pub fn index_set_is_empty(set: &crate::indexset::IndexSet) -> bool {
+        set.is_empty()
+    }
     pub mod domtree {
         pub use crate::domtree::*;
     }
-- 
2.43.0

