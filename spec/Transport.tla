----------------------------- MODULE Transport -----------------------------
(***************************************************************************)
(* A function and its machine description packed, sent in either format,  *)
(* unpacked, packed again, and given to the command-line tool.             *)
(*                                                                         *)
(* The abstract function is a value F; every copy is that value.  So each  *)
(* question put to a copy has the answer that F gives, every run on a copy *)
(* has the result of the run on the original, results survive the trip,    *)
(* and the tool succeeds exactly if the run does and prints the machine    *)
(* code: each block's instructions with their allocations, each move at    *)
(* its place.                                                              *)
(*                                                                         *)
(* The machine goes through the questions (phase "ask"), the runs, and     *)
(* then prints line after line what the tool should have printed.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet

(* phase; position in the phase's list; for the tool: block, program point, *)
(* moves made, line                                                         *)
VARIABLES ci, ph, k, bl, pt, ed, ln
vars == <<ci, ph, k, bl, pt, ed, ln>>
C == Cases[ci]
F == C.f
Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))

Block(b) == F.blocks[b + 1]
Inst(i) == F.insts[i + 1]

Answer(q, a, b) ==
    CASE q = "num_insts" -> F.ni
      [] q = "num_blocks" -> F.nb
      [] q = "entry" -> F.entry
      [] q = "num_vregs" -> F.nv
      [] q = "named_last" -> F.last
      [] q = "multi_defs" -> F.multi
      [] q = "slot_size" -> F.ss[a + 1]
      [] q = "debug" -> F.dbg
      [] q = "insns" -> Block(a).r
      [] q = "succs" -> Block(a).s
      [] q = "preds" -> Block(a).q
      [] q = "params" -> Block(a).p
      [] q = "args" -> Block(a).a[b + 1]
      [] q = "kind" -> Inst(a).k
      [] q = "operands" -> Inst(a).o
      [] q = "clobbers" -> Inst(a).c
      [] q = "preferred" -> F.pref[a + 1]
      [] q = "non_preferred" -> F.nonp[a + 1]
      [] q = "scratch" -> F.scr[a + 1]
      [] q = "fixed_stack" -> F.fss

Init ==
    /\ ci \in 1..Len(Cases)
    /\ ph = IF C.out = "ok" THEN "ask" ELSE "dead"
    /\ k = 1 /\ bl = 0 /\ pt = 0 /\ ed = 0 /\ ln = 0

Dead == ph = "dead" /\ Report("panic", C.msg) /\ ph' = "bad" /\ UNCHANGED <<ci, k, bl, pt, ed, ln>>

Goto(p) == ph' = p /\ k' = 1 /\ UNCHANGED <<ci, bl, pt, ed, ln>>
Fail(code, d) == Report(code, d) /\ ph' = "bad" /\ UNCHANGED <<ci, k, bl, pt, ed, ln>>
Advance == k' = k + 1 /\ UNCHANGED <<ci, ph, bl, pt, ed, ln>>

Ask ==
    /\ ph = "ask"
    /\ IF k > Len(C.ask) THEN Goto("run")
       ELSE LET q == C.ask[k] IN
            IF q.r = Answer(q.q, q.a, q.b) THEN Advance ELSE Fail("answer", <<q.w, q.q, q.a, q.b>>)

Run ==
    /\ ph = "run"
    /\ IF k > Len(C.runs) THEN Goto("trip")
       ELSE IF \A j \in 1..Len(C.runs) : C.runs[j].a = C.runs[k].a => C.runs[j].r = C.runs[k].r
       THEN Advance ELSE Fail("run", C.runs[k])

Trip ==
    /\ ph = "trip"
    /\ IF k > Len(C.trips) THEN Goto("tool")
       ELSE IF C.trips[k][1] = C.trips[k][2] THEN Advance ELSE Fail("trip", k)

(* ------------------------------------------------------------- the tool *)
T == C.tools[k]
BlockLine(b) == <<"block", ToString(b)>> \o Block(b).s \o <<"|">> \o Block(b).q
InstLine(i) == <<"inst", ToString(i)>> \o Inst(i).k \o T.ia[i + 1]
MoveLine(m) == <<"move">> \o T.ed[m].m

Tool ==
    /\ ph = "tool"
    /\ IF k > Len(C.tools) THEN Goto("done")
       ELSE IF (T.rc = 0) # T.ok THEN Fail("tool-exit", <<T.a, T.rc>>)
       ELSE IF ~ T.ok
       THEN IF T.pr = << >> THEN Advance ELSE Fail("tool-print", <<T.a, "printed a result">>)
       ELSE ph' = "print" /\ bl' = 0 /\ pt' = -1 /\ ed' = 0 /\ ln' = 1 /\ UNCHANGED <<ci, k>>

Prints(line) == ln <= Len(T.pr) /\ T.pr[ln] = line

(* pt = -1: the block's header; otherwise the machine is at program point   *)
(* pt: moves there come first, then (at 2i) instruction i.                  *)
PrintLine ==
    /\ ph = "print"
    /\ IF bl = Len(F.blocks)
       THEN IF ln = Len(T.pr) + 1 /\ ed = Len(T.ed)
            THEN ph' = "tool" /\ k' = k + 1 /\ UNCHANGED <<ci, bl, pt, ed, ln>>
            ELSE Fail("tool-print", <<T.a, "length">>)
       ELSE IF pt = -1
       THEN IF Prints(BlockLine(bl))
            THEN pt' = 2 * Block(bl).f /\ ln' = ln + 1 /\ UNCHANGED <<ci, ph, k, bl, ed>>
            ELSE Fail("tool-print", <<T.a, ln>>)
       ELSE IF ed < Len(T.ed) /\ T.ed[ed + 1].p = pt
       THEN IF Prints(MoveLine(ed + 1))
            THEN ed' = ed + 1 /\ ln' = ln + 1 /\ UNCHANGED <<ci, ph, k, bl, pt>>
            ELSE Fail("tool-print", <<T.a, ln>>)
       ELSE IF pt % 2 = 0
       THEN IF Prints(InstLine(pt \div 2))
            THEN pt' = pt + 1 /\ ln' = ln + 1 /\ UNCHANGED <<ci, ph, k, bl, ed>>
            ELSE Fail("tool-print", <<T.a, ln>>)
       ELSE IF pt + 1 = 2 * Block(bl).l
       THEN bl' = bl + 1 /\ pt' = -1 /\ UNCHANGED <<ci, ph, k, ed, ln>>
       ELSE pt' = pt + 1 /\ UNCHANGED <<ci, ph, k, bl, ed, ln>>

Next == Dead \/ Ask \/ Run \/ Trip \/ Tool \/ PrintLine
Spec == Init /\ [][Next]_vars
TypeOK == /\ ph \in {"ask", "run", "trip", "tool", "print", "done", "bad", "dead"}
          /\ bl \in 0..Len(F.blocks)
============================================================================
