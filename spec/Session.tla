------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Using the allocator again and again.                                    *)
(*                                                                         *)
(* The allocator is a function of (program and machine, algorithm) and has *)
(* no other memory.  A reusable context is a place that holds the result   *)
(* of the last run that succeeded in it, until it is taken out or another  *)
(* run begins; it has no influence on results.                             *)
(*                                                                         *)
(*   known   what each <<program, algorithm>> gives, once it has been seen *)
(*   holds   what each context holds ("?" - not specified)                 *)
(*                                                                         *)
(* A step is                                                               *)
(*   run      a run with a new context      together  several of these at  *)
(*   ctx      a run in context x                      once, in threads     *)
(*   thread   the same, in another thread   process   in another process   *)
(*   look     reading the output of context x                              *)
(*   take     moving the output out of context x                           *)
(* with options o (logging, validation), which must not matter.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet

VARIABLES ci, k, known, holds, err
vars == <<ci, k, known, holds, err>>
C == Cases[ci]
Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))

Contexts == 1..3
IsOk(r) == Len(r) >= 2 /\ SubSeq(r, 1, 2) = "ok"
Unknown == "?"

Init ==
    /\ ci \in 1..Len(Cases)
    /\ k = 1
    /\ known = [s \in (1..C.nc) \X {1, 2} |-> Unknown]
    /\ holds = [x \in Contexts |-> Unknown]
    /\ err = ""

Op == C.ops[k]
Step == k' = k + 1 /\ UNCHANGED <<ci, err>>
Wrong(what) == err' = what /\ Report(what, <<k, Op>>) /\ UNCHANGED <<ci, k, known, holds>>

Run ==
    /\ Op.k \in {"run", "ctx", "thread", "together", "process"}
    /\ LET s == <<Op.c, Op.a>> IN
       IF known[s] \notin {Unknown, Op.r} THEN Wrong("not-a-function")
       ELSE /\ known' = [known EXCEPT ![s] = Op.r]
            /\ holds' = IF Op.x = 0 THEN holds
                        ELSE [holds EXCEPT ![Op.x] = IF IsOk(Op.r) THEN Op.r ELSE Unknown]
            /\ Step

Look ==
    /\ Op.k \in {"look", "take"}
    /\ IF holds[Op.x] \notin {Unknown, Op.r} THEN Wrong("output-lost")
       ELSE /\ holds' = IF Op.k = "take" THEN [holds EXCEPT ![Op.x] = Unknown] ELSE holds
            /\ UNCHANGED known
            /\ Step

(* Throwing context x away and starting with a new one.                     *)
New ==
    /\ Op.k = "new"
    /\ holds' = [holds EXCEPT ![Op.x] = Unknown]
    /\ UNCHANGED known
    /\ Step

Next == err = "" /\ k <= Len(C.ops) /\ (Run \/ Look \/ New)
Spec == Init /\ [][Next]_vars
Consistent == \A x \in Contexts : holds[x] = Unknown \/ \E s \in DOMAIN known : known[s] = holds[x]
============================================================================
