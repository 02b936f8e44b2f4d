------------------------------ MODULE Checker ------------------------------
(***************************************************************************)
(* What the library's own checker must decide.                             *)
(*                                                                         *)
(* The machine executes an allocated function with the semantics that the  *)
(* checker documents: each location holds a set of virtual registers, a    *)
(* move copies the set of its source, a definition puts its vreg in one    *)
(* place and takes it out of all others, a clobber empties a register, and *)
(* an edge assigns the block parameters in parallel.  (Unlike RegMachine,  *)
(* an instruction reads everything before it writes, and slots do not      *)
(* overlap.)  Every path is executed.  An execution goes wrong when a use  *)
(* is not where it is said to be, when a constraint is not met, or when a  *)
(* move is from memory to memory.                                          *)
(*                                                                         *)
(* The recorded verdict of the real checker (`ck') must be "err" exactly   *)
(* when some execution goes wrong.                                         *)
(***************************************************************************)
EXTENDS RegMachine, TLCExt

CkConstraintOK(c, ins, o) ==
    CASE o.c = "any" -> TRUE
      [] o.c = "reg" -> ~ IsStack(c, o.a)
      [] o.c = "stack" -> IsStack(c, o.a)
      [] o.c \in {"fixed", "nonalloc"} ->
           IsReg(c, o.a) /\ c.locs[o.a].c = o.xc /\ c.locs[o.a].n = o.x
      [] o.c = "reuse" -> IsReg(c, o.a) /\ o.a = ins.o[o.x].a
      [] o.c = "limit" -> ~ IsStack(c, o.a) /\ c.locs[o.a].n < o.x
      [] OTHER -> FALSE

(* The operands of instruction ins that are wrong at a position in store st *)
Wrong(c, ins, st, pos) ==
    {j \in 1..Len(ins.o) :
       LET o == ins.o[j] IN
       /\ o.p = pos
       /\ \/ o.a = 0
          \/ o.k = "u" /\ o.v # 0 /\ o.v \notin st[o.a]
          \/ ~ CkConstraintOK(c, ins, o)}

RECURSIVE CkDefs(_, _, _)
CkDefs(ins, st, j) ==
    IF j > Len(ins.o) THEN st
    ELSE LET o == ins.o[j] IN
         CkDefs(ins,
                IF o.k = "u" \/ o.v = 0 THEN st
                ELSE [a \in DOMAIN st |-> IF a = o.a THEN {o.v} ELSE st[a] \ {o.v}],
                j + 1)

RECURSIVE CkMoves(_, _, _, _)
CkMoves(c, st, k, n) ==
    IF k >= n THEN st
    ELSE CkMoves(c, [st EXCEPT ![c.edits[k][3]] = st[c.edits[k][2]]], k + 1, n)

BadMove(c, k, n) ==
    \E x \in k..(n - 1) : IsStack(c, c.edits[x][2]) /\ IsStack(c, c.edits[x][3])

(* An execution has gone wrong: remember it, and complain if the checker   *)
(* was content.                                                            *)
GoneWrong(code, detail) ==
    /\ IF C.ck = "ok" THEN Report("accepts-wrong", <<code, detail>>) ELSE TLCSet(ci, TRUE)
    /\ err' = code /\ ph' = "err"
    /\ UNCHANGED <<ci, pc, blk, ed, h, lost>>

CkInit == Init /\ TLCSet(ci, FALSE)

CkLoad ==
    /\ ph = "load"
    /\ IF C.ck = "panic" THEN Fail("panic", C.msg)
       ELSE /\ Enter(C, C.entry)
            /\ h' = [a \in 1..NL(C) |-> {}]
            /\ lost' = {}
            /\ UNCHANGED <<ci, err>>

CkMove(end) ==
    IF BadMove(C, ed, end) THEN GoneWrong("stack-to-stack", pc)
    ELSE h' = CkMoves(C, h, ed, end) /\ ed' = end /\ UNCHANGED <<ci, ph, pc, blk, lost, err>>

CkMoveBefore == ph = "mv" /\ ed < I.e[2] /\ CkMove(I.e[2])
CkMoveAfter == ph = "aft" /\ ed < I.e[3] /\ CkMove(I.e[3])

CkInstr ==
    /\ ph = "mv" /\ ed = I.e[2]
    /\ LET bad1 == Wrong(C, I, h, "e")
           s1   == CkDefs(I, h, 1)
           s2   == Forget(s1, ClobLocs(C, I))
           bad2 == Wrong(C, I, s2, "l")
       IN IF bad1 # {} THEN GoneWrong("early", <<pc, bad1>>)
          ELSE IF bad2 # {} THEN GoneWrong("late", <<pc, bad2>>)
          ELSE h' = s2 /\ ph' = "aft" /\ UNCHANGED <<ci, pc, blk, ed, lost, err>>

CkNext1 ==
    /\ ph = "aft" /\ ed = I.e[3] /\ ~ AtEnd
    /\ pc' = pc + 1 /\ ph' = "mv" /\ UNCHANGED <<ci, blk, ed, h, lost, err>>

CkNext == CkLoad \/ CkMoveBefore \/ CkInstr \/ CkMoveAfter \/ CkNext1 \/ Edge \/ Return
CkSpec == CkInit /\ [][CkNext]_vars

(* After everything has been explored: what the checker refused must have  *)
(* gone wrong somewhere.                                                   *)
Explored ==
    \A k \in 1..Len(Cases) :
        (Cases[k].ck = "err" /\ TLCGet(k) # TRUE) =>
            PrintT("VERR|" \o Cases[k].id \o "|rejects-right|" \o Cases[k].msg)
=============================================================================
