---------------------------- MODULE Eliminator -----------------------------
(***************************************************************************)
(* Redundant-move elimination.                                             *)
(*                                                                         *)
(* A case is a sequence of events the real eliminator was driven with, and *)
(* for every move its verdict.  Two machines run side by side: `full'      *)
(* executes every move, `lean' leaves out the moves the eliminator called  *)
(* redundant.  Both must agree on every location at every time.            *)
(*                                                                         *)
(*   <<"m", from, to, elided>>   a move                                    *)
(*   <<"w", loc>>                loc is overwritten with a new value       *)
(*   <<"j">>                     a join: nothing is known any more, every  *)
(*                               location may have any value               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet

VARIABLES ci, k, full, lean, next, err
vars == <<ci, k, full, lean, next, err>>
C == Cases[ci]
Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))

Init ==
    /\ ci \in 1..Len(Cases)
    /\ k = 1
    /\ full = [l \in 1..C.n |-> l]
    /\ lean = [l \in 1..C.n |-> l]
    /\ next = C.n + 1
    /\ err = ""

Panicked ==
    /\ err = "" /\ C.out # "ok"
    /\ Report("panic", C.msg)
    /\ err' = "panic"
    /\ UNCHANGED <<ci, k, full, lean, next>>

Step ==
    /\ err = "" /\ C.out = "ok" /\ k <= Len(C.ev)
    /\ LET e == C.ev[k] IN
       /\ CASE e[1] = "m" ->
                 /\ full' = [full EXCEPT ![e[3]] = full[e[2]]]
                 /\ lean' = IF e[4] THEN lean ELSE [lean EXCEPT ![e[3]] = lean[e[2]]]
                 /\ next' = next
            [] e[1] = "w" ->
                 /\ full' = [full EXCEPT ![e[2]] = next]
                 /\ lean' = [lean EXCEPT ![e[2]] = next]
                 /\ next' = next + 1
            [] e[1] = "j" ->
                 /\ full' = [l \in 1..C.n |-> next + l]
                 /\ lean' = [l \in 1..C.n |-> next + l]
                 /\ next' = next + C.n + 1
       /\ IF full' # lean'
          THEN /\ Report("stale", <<k, CHOOSE l \in 1..C.n : full'[l] # lean'[l]>>)
               /\ err' = "stale"
          ELSE err' = ""
       /\ k' = k + 1
       /\ ci' = ci

Next == Panicked \/ Step
Spec == Init /\ [][Next]_vars
Correct == err = ""
Agree == err = "" => full = lean
=============================================================================
