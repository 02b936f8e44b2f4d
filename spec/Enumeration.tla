---------------------------- MODULE Enumeration ----------------------------
(***************************************************************************)
(* Emitting the final code of a function.                                  *)
(*                                                                         *)
(* The machine emits block after block.  `at' is the program point it has  *)
(* reached (2(i-1) before, 2(i-1)+1 after instruction i), `ed' the number  *)
(* of moves emitted.  It may emit the next move when that move's point has *)
(* been reached and not passed, and an instruction when no move before it  *)
(* is left.  The recorded walk (instruction i as i, move k as -k) must be  *)
(* the behaviour of this machine, and the allocations recorded for each    *)
(* instruction must be its own segment of the allocation list.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet

VARIABLES ci, blk, pos, at, ed, err
vars == <<ci, blk, pos, at, ed, err>>
C == Cases[ci]
Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))

NI(c) == Len(c.off)
Seg(c, i) ==
    LET hi == IF i = NI(c) THEN c.na ELSE c.off[i + 1]
    IN [j \in 1..(hi - c.off[i]) |-> c.off[i] + j]
AllocsOK(c) == Len(c.ia) = NI(c) /\ \A i \in 1..NI(c) : c.ia[i] = Seg(c, i)

Init == ci \in 1..Len(Cases) /\ blk = 0 /\ pos = 1 /\ at = 0 /\ ed = 0 /\ err = ""

Stop(code, detail) == Report(code, detail) /\ err' = code /\ UNCHANGED <<ci, blk, pos, at, ed>>

Begin ==
    /\ blk = 0
    /\ IF C.out # "ok" THEN Stop("panic", C.msg)
       ELSE IF ~ AllocsOK(C) THEN Stop("inst-allocs", "")
       ELSE blk' = 1 /\ pos' = 1 /\ at' = 2 * (C.r[1][1] - 1) /\ UNCHANGED <<ci, ed, err>>

NextEditIs(p) == ed < Len(C.pt) /\ C.pt[ed + 1] <= p
More == blk # 0 /\ pos <= Len(C.walk[blk])

EmitMove ==
    /\ More /\ C.walk[blk][pos] < 0
    /\ IF /\ C.walk[blk][pos] = -(ed + 1)
          /\ ed < Len(C.pt)
          /\ C.pt[ed + 1] \in {at, at + 1}
          /\ C.pt[ed + 1] <= 2 * (C.r[blk][2] - 1)
       THEN ed' = ed + 1 /\ pos' = pos + 1 /\ at' = C.pt[ed + 1] /\ UNCHANGED <<ci, blk, err>>
       ELSE Stop("move", <<blk, pos>>)

EmitInst ==
    /\ More /\ C.walk[blk][pos] > 0
    /\ LET i == C.walk[blk][pos] IN
       IF /\ i \in C.r[blk][1]..C.r[blk][2]
          /\ 2 * (i - 1) \in {at, at + 1}
          /\ ~ NextEditIs(2 * (i - 1))
       THEN at' = 2 * (i - 1) + 1 /\ pos' = pos + 1 /\ UNCHANGED <<ci, blk, ed, err>>
       ELSE Stop("inst", <<blk, pos>>)

EndBlock ==
    /\ blk # 0 /\ pos = Len(C.walk[blk]) + 1
    /\ IF at # 2 * (C.r[blk][2] - 1) + 1 THEN Stop("short", blk)
       ELSE IF blk = Len(C.r)
       THEN IF ed = Len(C.pt) THEN FALSE ELSE Stop("lost", ed)
       ELSE /\ blk' = blk + 1 /\ pos' = 1 /\ at' = 2 * (C.r[blk + 1][1] - 1)
            /\ UNCHANGED <<ci, ed, err>>

Next == err = "" /\ (Begin \/ EmitMove \/ EmitInst \/ EndBlock)
Spec == Init /\ [][Next]_vars
Correct == err = ""
TypeOK == ed \in 0..Len(C.pt) /\ blk \in 0..Len(C.r)
=============================================================================
