p("C12","Parallel moves are sequentialised without losing a value",
  "For every set of parallel moves with distinct destinations, the sequence of moves produced leaves every destination with the value its source held before, and leaves every location that is neither a destination nor scratch unchanged. The scratch placeholder is used only when the moves contain a cycle, and the value tagged with each destination follows it.",
  ["inputs"],"all sets of parallel moves (registers and stack slots), up to arbitrary fan-out, chain and cycle structure",
  "Correctness is over all permutations and fan-outs; no unit test covers the module at all, only a fuzz target that random smoke runs touch.",
  ["src/moves.rs"],[("ordering by depth-first search over the move graph, breaking cycles with scratch","src/moves.rs ParallelMoves::resolve")],
  [("MoveVecWithScratch","whether a scratch register was needed","src/moves.rs")],["return value of ParallelMoves::resolve"],"re-export of moves under cfg(regalloc2_verif)")
p("C13","Scratch and stack-to-stack resolution preserves the moves' effect",
  "Given resolved moves, free registers (dedicated scratch, any free register, or none), stack slots and a victim register, the final move list has the same effect on every live location as the parallel moves, contains no stack-to-stack move and no scratch placeholder, and every register it borrows is either free or saved first and restored last. It borrows a free register when there is one before it evicts the victim.",
  ["inputs","configurations"],"all move sets, sets of free registers, and slot allocation behaviours",
  "The victim is only used when all registers are busy and a cycle or stack-to-stack move coincides; no unit test reaches it.",
  ["src/moves.rs"],[("finding a scratch register, an extra slot, evicting and restoring the victim","src/moves.rs MoveAndScratchResolver::compute")],
  [],["return value of MoveAndScratchResolver::compute"],"re-export of moves under cfg(regalloc2_verif)")
p("C14","The redundant-move eliminator only elides moves that change nothing",
  "For every history of moves between registers and stack locations, clobbers of locations and clears, a move is declared elidable only if, at that point of that history, its destination already holds the value of its source.",
  ["histories"],"all finite histories of moves between registers and stack locations, clobbers and clears",
  "An invariant over unbounded histories of a stateful object with two mutually inverse maps; there are no unit tests for it.",
  ["src/ion/redundant_moves.rs","src/ion/moves.rs"],[("copy and original tracking with reverse index","src/ion/redundant_moves.rs")],
  [("allocs, reverse_allocs","known copies and their inverse","src/ion/redundant_moves.rs")],["RedundantMoveAction of process_move"],"re-export of RedundantMoveEliminator under cfg(regalloc2_verif)")
p("C15","The control-flow analyses compute their mathematical definitions",
  "For every control-flow graph, the postorder lists exactly the blocks reachable from the entry, each once, the entry last, and every block after all its successors except those it is reached from through a back edge; for reachable blocks the immediate dominators are those of graph theory and the dominance test answers accordingly; and the instruction-to-block table and the first and last program points of every block describe the function. The estimated loop depth of a block is the number of loops around it wherever the block layout nests the loops (each edge to an earlier block leaves from the innermost loop still open there).",
  ["inputs"],"all directed graphs with an entry, any block order and unreachable blocks",
  "Correct for every graph shape including irreducible ones and unreachable blocks; the one unit test uses a single five-block graph.",
  ["src/domtree.rs","src/postorder.rs","src/cfg.rs"],[("iterative dominator algorithm","src/domtree.rs"),("iterative depth-first search","src/postorder.rs"),("block boundary tables and loop depths","src/cfg.rs")],
  [],["CFGInfo fields, domtree::calculate, domtree::dominates, postorder::calculate"],"re-export of cfg, domtree and postorder under cfg(regalloc2_verif)")
p("C16","Index sets behave as mathematical sets",
  "For every history of insertions, removals, unions, copies, queries and iterations on the index sets that hold liveness, each answer is the one a mathematical set of integers gives: membership, iteration yielding each member exactly once, and union reporting a change exactly when the set grew. This includes indices far apart and sets that grow past their inline storage.",
  ["histories"],"all finite histories over pairs of index sets, dense and sparse, any index",
  "The representation changes with size and remembers the last block looked up, so correctness depends on the whole history; the unit tests are a few insertions.",
  ["src/indexset.rs"],[("sparse chunks in an inline array or a hash map, with a lookup cache","src/indexset.rs")],
  [("elems, cache","chunks of 64 bits and the last chunk found","src/indexset.rs IndexSet")],["return values of IndexSet methods"],"re-export of indexset under cfg(regalloc2_verif)")
p("C17","Register sets and packed value types round-trip",
  "Registers, virtual registers, operands, allocations, spill slots, program points and instruction ranges give back exactly what they were made from, through every constructor, accessor and raw-bits conversion, and program points are ordered as execution visits them. Register sets behave as mathematical sets under add, remove, union, intersection, complement, ranges and iteration.",
  ["inputs","histories"],"all field values within the documented ranges, all histories of set operations",
  "Every client encodes its whole program through these packed fields; the few unit tests check chosen values.",
  ["src/lib.rs","src/index.rs"],[("bit packing of PReg, VReg, Operand, Allocation, ProgPoint","src/lib.rs"),("PRegSet words","src/lib.rs"),("InstRange iteration","src/index.rs")],
  [("bits","the packed fields","src/lib.rs")],["return values of the public accessors"],"the crate root re-exports under cfg(regalloc2_verif)")
p("C18","Recency lists and live-register lists keep their order and members",
  "After any history, the recency list used to choose which register to evict answers with the least recently used of the acceptable registers, where registers never used count as oldest. The list of live virtual registers contains exactly those inserted and not since removed, each once.",
  ["histories"],"all finite histories of uses, removals and queries over any set of registers",
  "These are hand-linked lists in arrays; a broken link shows only after a particular sequence.",
  ["src/fastalloc/lru.rs","src/fastalloc/vregset.rs"],[("circular linked lists in arrays","src/fastalloc/lru.rs, src/fastalloc/vregset.rs")],
  [("data, head","links","src/fastalloc/lru.rs Lru"),("items, head","links","src/fastalloc/vregset.rs VRegSet")],["return values of Lru and VRegSet methods"],"re-export of fastalloc's lists under cfg(regalloc2_verif)")
p("C19","Walking an output yields every instruction and move once, in order",
  "Walking a function's blocks through the output yields every instruction of each block once and every inserted move once, each move exactly at its program point (before or after its instruction). The allocations reported for an instruction are exactly its own segment of the allocation list.",
  ["programs"],"all functions and outputs, including empty and unmoved blocks and several moves at one point",
  "This is how clients turn an output into code; the walk depends on how moves and block boundaries interleave.",
  ["src/lib.rs"],[("binary search and merge of instructions and edits","src/lib.rs Output::block_insts_and_edits, OutputIter")],
  [],["Output::block_insts_and_edits, Output::inst_allocs"],"none beyond the public API")
p("C21","Register choice tries every permitted register once, preferred first",
  "When a register must be chosen, a fixed register is the only one tried; otherwise the hint comes first if permitted, then every preferred and then every non-preferred allocatable register permitted by the limit, each exactly once. Merging two requirements gives one satisfied exactly by the locations that satisfy both, or reports a conflict exactly when there is none.",
  ["inputs"],"all environments, hints, fixed registers and limits, all pairs of requirements",
  "A skipped register or a wrong merge costs allocations or breaks constraints only in crowded functions.",
  ["src/ion/reg_traversal.rs","src/ion/requirement.rs"],[("iteration with offset, hint and limit","src/ion/reg_traversal.rs"),("Requirement::merge","src/ion/requirement.rs")],
  [],["RegTraversalIter, Requirement::merge"],"re-export of the ion modules under cfg(regalloc2_verif)")
p("C11","The allocation checker accepts exactly the correct allocations",
  "For every function, environment and output, the library's checker accepts the output exactly when, executing the function with its documented rules (moves copy the set of values of their source, a definition replaces what its place holds and makes every other copy stale, clobbers empty registers, edges assign block parameters in parallel) along every path from the entry, each use finds its value where the output says. In addition every operand's constraint must be met at its position, and no move may go from stack to stack. The verdict does not depend on block order or loops.",
  ["programs","inputs"],"all functions and all outputs for them, right or wrong",
  "The checker is the oracle of every fuzz target and of users; it is itself only exercised on outputs that are right.",
  ["src/checker.rs"],[("forward dataflow over sets of vregs per location","src/checker.rs CheckerState::update, Checker::analyze"),("use and constraint checks","src/checker.rs CheckerState::check")],
  [("bb_in","what each location holds at block entry","src/checker.rs Checker")],["result of Checker::run"],"none (feature checker)")
p("C08","Allocation depends only on the program, the machine and the algorithm",
  "The result of an allocation run (output or error, including statistics) is a function of the input function, the machine environment and the algorithm: it is the same in every process and thread, with a fresh or a reused context after any history of successful and failed runs, and whatever the logging and validation options. After a successful run a context holds exactly that result until it is taken out or another run begins.",
  ["histories","schedules"],"all histories of runs over any functions, algorithms, options, contexts, threads and processes",
  "Contexts are reused for every function of a compilation, and builds are expected to be reproducible; a field that is not reset shows only after a particular sequence of functions.",
  ["src/lib.rs","src/ion/data_structures.rs","src/ion/mod.rs","src/fastalloc/mod.rs","src/cfg.rs"],
  [("reusing the collections of a context","src/ion/mod.rs Env::new"),("options","src/lib.rs run, run_with_ctx")],
  [("Ctx","collections kept between runs","src/ion/data_structures.rs Ctx")],["results of run and run_with_ctx, Ctx::output"],"none beyond the public API")
p("C09","The validator accepts exactly the functions that are well formed",
  "With validation on, a function is refused exactly if it breaks one of the input rules: one definition of each virtual register and every use and branch argument preceded by it on every path from the entry, terminators at block ends only, as many branch arguments as parameters, no parameters on the entry block, no critical edges, and no operands on a branch into a block with other ways in. The error names a rule that is really broken and the place that breaks it, and a broken function never makes the validator panic.",
  ["programs","inputs"],"all functions, well formed or broken in any way",
  "The validator is the only guard between a compiler's bug and silent misallocation; the existing tests only give it valid functions.",
  ["src/ssa.rs","src/cfg.rs"],[("definitions and dominance of uses","src/ssa.rs validate_ssa"),("critical edges and block structure","src/cfg.rs CFGInfo::init")],
  [("defined_in, local","where each vreg is defined","src/ssa.rs")],["RegAllocError of validate_ssa, run"],"re-export of cfg and ssa under cfg(regalloc2_verif)")
p("C20","Serialization and the tool preserve the function and its allocation",
  "A function packed with its machine environment, sent through any serialization format any number of times, answers every accessor as the original does and allocates to the same result; outputs and errors survive serialization unchanged. The command-line tool succeeds exactly if the allocation of its input does and prints every block's instructions with their allocations and every move at its place.",
  ["inputs"],"all functions and machine environments, every accessor, both formats, both algorithms",
  "Bug reports and regression inputs travel this way; there are no tests of it.",
  ["src/serialize.rs","src/lib.rs","regalloc2-tool/src/main.rs"],[("copying the function","src/serialize.rs SerializableFunction::new"),("printing","regalloc2-tool/src/main.rs print_output")],
  [],["accessors of the deserialized function, exit code and output of regalloc2-tool"],"none beyond the public API")
