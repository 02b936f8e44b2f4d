import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
ION=["src/ion/mod.rs","src/ion/liveranges.rs","src/ion/merge.rs","src/ion/process.rs","src/ion/spill.rs","src/ion/moves.rs","src/ion/redundant_moves.rs","src/moves.rs"]
FAST=["src/fastalloc/mod.rs","src/fastalloc/lru.rs","src/fastalloc/vregset.rs","src/fastalloc/iter.rs"]
p("C01","The backtracking allocator preserves the dataflow of every function",
  "For every valid input function and register environment in which each instruction's operands fit the registers, the default (backtracking) algorithm returns normally with an allocation. Executing the instructions with the returned operand locations and the returned moves, along every control-flow path and any number of loop iterations, each use reads the value of the virtual register it names, block parameters receive the value of the matching branch argument, and no value still needed is overwritten.",
  ["programs","configurations"],"all valid CFG/SSA functions, register environments, spill-slot geometries, and every execution path through each",
  "The unit tests run one or two hand-written functions and only through the crate's own checker in fuzz builds; the quantifier is over all programs and all paths.",
  ION,[("live range construction","src/ion/liveranges.rs"),("bundle merging and splitting","src/ion/merge.rs, src/ion/process.rs"),("resolution moves and parallel-move resolution","src/ion/moves.rs, src/moves.rs"),("redundant move elimination","src/ion/redundant_moves.rs")],
  [("allocs/edits/inst_alloc_offsets","where each operand lives and which moves connect them","Output in src/lib.rs")],["Output returned by run()"])
p("C02","The single-pass allocator preserves the dataflow of every function",
  "For every valid input function whose operands fit the registers, the single-pass algorithm (Fastalloc) returns normally with an allocation, for any entry block, block order and control flow. Executing the instructions with the returned locations and moves along every path, each use reads the value of the virtual register it names, block parameters receive the value of the matching branch argument, and no value still needed is overwritten.",
  ["programs","configurations"],"all valid functions without limit constraints, register environments and block orders, and every execution path through each",
  "fastalloc's unit tests compare a handful of straight-line and two-block outputs verbatim; loops, eviction patterns and block orders are unbounded.",
  FAST+["src/moves.rs"],[("backwards scan with eviction","src/fastalloc/mod.rs"),("LRU victim choice","src/fastalloc/lru.rs"),("spill slot per vreg as the block interface","src/fastalloc/mod.rs")],
  [("edits, allocs","the output","Output in src/lib.rs")],["Output returned by run()"])
p("C03","Every operand location satisfies its operand constraint",
  "In every returned allocation each operand's location satisfies its constraint: a register of the operand's class for a register constraint, exactly the named register for a fixed constraint, a register below the bound for a limit constraint, the same location as the named input for a reuse constraint, a stack slot for a stack constraint. Only registers offered by the environment, or the fixed-stack registers, are ever used for operands that do not name a register, and a fixed non-allocatable operand is echoed back unchanged.",
  ["programs","configurations"],"all valid functions and environments, both algorithms, every operand of every instruction",
  "Existing tests look at a few operands of one function; constraint conflicts arise from combinations (fixed plus reuse plus limit plus early/late) that they do not contain.",
  ["src/ion/requirement.rs","src/ion/merge.rs","src/ion/process.rs","src/ion/liveranges.rs","src/fastalloc/mod.rs","src/lib.rs"],
  [("requirement merging","src/ion/requirement.rs"),("multi-fixed-register fixups","src/ion/liveranges.rs, src/ion/moves.rs"),("fixed/reuse operand handling","src/fastalloc/mod.rs")],[],["Output::inst_allocs"])
p("C04","Operands live at the same time never share a location; clobbers destroy nothing",
  "Within one instruction, two operands holding different values at the same moment (early or late) never share a location, and a register clobbered by an instruction holds no late-used operand and no definition of it. No value that is needed later is held only in a register that the instruction clobbers or redefines.",
  ["programs","configurations"],"all valid functions, operand position/kind combinations and clobber sets, both algorithms",
  "Needs the cross product of early/late, use/def, fixed and clobber sets together with register pressure; tests fix a few of these by hand.",
  ["src/ion/liveranges.rs","src/ion/process.rs","src/fastalloc/mod.rs"],
  [("clobbers and early/late points as live ranges","src/ion/liveranges.rs"),("available-register sets per operand position","src/fastalloc/mod.rs")],[],["Output::inst_allocs, Output::edits"])
p("C05","The edit list is well formed and directly executable",
  "Edits are sorted by program point, never lie after the last instruction of a block (after a branch or return) nor beyond the last instruction of the function, and every instruction has exactly as many allocations as operands. Every move is between real locations of the same register class, and no move goes directly from one stack location to another.",
  ["programs","configurations"],"all valid functions and environments with and without dedicated scratch registers, both algorithms",
  "Tests inspect one or two edit lists; unsorted or stack-to-stack moves appear only under particular pressure and edge shapes.",
  ["src/ion/moves.rs","src/moves.rs","src/fastalloc/mod.rs","src/lib.rs"],
  [("edit sorting","src/ion/moves.rs, src/fastalloc/mod.rs"),("stack-to-stack resolution through a scratch register","src/moves.rs"),("edge move placement","src/ion/moves.rs")],[],["Output::edits"])
p("C06","Spill slots are within the frame and never overlap",
  "Every stack location that is used lies, with the number of slots its register class needs, inside the reported number of spill slots. Two stack locations used with different start positions never overlap, and a location is not used for classes of different sizes unless it holds the larger one.",
  ["programs","configurations"],"all valid functions and per-class slot sizes, either slot naming convention, both algorithms",
  "Overlap needs mixed-class spilling with unequal slot sizes; no test uses slot sizes above one.",
  ["src/ion/spill.rs","src/ion/process.rs","src/fastalloc/mod.rs"],
  [("spill slot assignment","src/ion/spill.rs, src/fastalloc/mod.rs"),("multi-slot naming at the last slot","src/lib.rs Function::multi_spillslot_named_by_last_slot")],[],["Output::num_spillslots, allocations and moves"])
p("C07","Debug locations tell the truth about where labelled values are",
  "Every returned debug-location range is for a requested label, is non-empty, sorted by label and position and disjoint within a label. At every program point of such a range, on every path reaching it, the location holds the value of a virtual register for which that label was requested there. Conversely, no requested point at which the virtual register still has a use ahead in its block goes unanswered (for fastalloc: when the whole request lies inside a live range that one block contains).",
  ["programs","configurations"],"all valid functions with any set of requested label ranges, both algorithms, every path",
  "Two unit tests compare literal ranges for straight-line code; the claim is about values held along every path and after every split.",
  ["src/ion/moves.rs","src/fastalloc/mod.rs","src/lib.rs"],
  [("label intersection with live ranges","src/ion/moves.rs"),("label ranges from vreg liveness","src/fastalloc/mod.rs")],[],["Output::debug_locations"])
p("C10","Allocation always terminates with an allocation or a clean error",
  "For every valid function, environment and option set, allocation terminates without panicking. It reports that too many registers are live only if some instruction really is short of registers: the other operands and clobbers can take, at the points where an operand needs a register, every register that the operand may use. (An instruction that reuses an input keeps all its inputs to its end; fastalloc without a dedicated scratch register of a class additionally needs one register for moves and counts fixed, clobbered and memory-allowed operands of that class at both points.) It reports no other error for a valid function.",
  ["programs","configurations"],"all valid functions up to very tight register files, both algorithms, debug assertions on",
  "The backtracking loop's termination and the fit decision depend on unbounded eviction/splitting histories; tests allocate a handful of easy functions.",
  ["src/ion/process.rs","src/ion/mod.rs","src/fastalloc/mod.rs"],
  [("spill weights and minimal bundles","src/ion/process.rs"),("fit check","src/ion/process.rs, src/fastalloc/mod.rs")],[],["Result of run()"])
exec(open('/verif/doc/mkprops2.py').read()) if __import__('os').path.exists('/verif/doc/mkprops2.py') else None
P.sort(key=lambda x: x['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
