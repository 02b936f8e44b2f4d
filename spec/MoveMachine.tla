---------------------------- MODULE MoveMachine ----------------------------
(***************************************************************************)
(* Parallel moves and their implementation by a sequence of moves.         *)
(*                                                                         *)
(* A case is one problem given to the real resolver together with the      *)
(* sequence it produced.  The machine first gives the parallel move its    *)
(* meaning (all sources are read before any destination is written), then  *)
(* EXECUTES the sequence one move per step and compares the stores.        *)
(*                                                                         *)
(*   n     locations are 1..n; a location's initial value is its own name  *)
(*   st    st[l] = TRUE: location l is a stack location                    *)
(*   par   the parallel move: triples <<source, destination, label>>       *)
(*   free  locations whose contents nobody needs (free registers, fresh    *)
(*         slots, the chosen scratch)                                      *)
(*   full  TRUE: the sequence must not contain stack-to-stack moves        *)
(*   out   "ok" or "panic"                                                 *)
(*   seq   the produced sequence of triples                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet

VARIABLES ci, k, store, brought, err
vars == <<ci, k, store, brought, err>>

C == Cases[ci]
Range(s) == {s[i] : i \in 1..Len(s)}

Dests(c) == {m[2] : m \in Range(c.par)}
SourceOf(c, d) == (CHOOSE m \in Range(c.par) : m[2] = d)[1]
LabelOf(c, d) == (CHOOSE m \in Range(c.par) : m[2] = d)[3]

(* The store after the parallel move, where it matters.                    *)
Meaning(c) ==
    [l \in (1..c.n) \ (Range(c.free) \ Dests(c)) |->
        IF l \in Dests(c) THEN SourceOf(c, l) ELSE l]

Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))
Fail(code, detail) ==
    /\ Report(code, detail)
    /\ err' = code
    /\ UNCHANGED <<ci, k, store, brought>>

Init ==
    /\ ci \in 1..Len(Cases)
    /\ k = 1
    /\ store = [l \in 1..C.n |-> l]
    /\ brought = {}
    /\ err = ""

Refused ==
    /\ err = "" /\ C.out # "ok"
    /\ Fail("panic", C.msg)

Step ==
    /\ err = "" /\ C.out = "ok" /\ k <= Len(C.seq)
    /\ LET m == C.seq[k] IN
       IF m[1] \notin 1..C.n \/ m[2] \notin 1..C.n THEN Fail("nowhere", <<k, m>>)
       ELSE IF C.full /\ C.st[m[1]] /\ C.st[m[2]] THEN Fail("stack-to-stack", <<k, m>>)
       ELSE /\ store' = [store EXCEPT ![m[2]] = store[m[1]]]
            /\ brought' = brought \cup
                 {d \in Dests(C) : /\ d = m[2]
                                   /\ store[m[1]] = SourceOf(C, d)
                                   /\ LabelOf(C, d) = m[3]}
            /\ k' = k + 1
            /\ UNCHANGED <<ci, err>>

Finish ==
    /\ err = "" /\ C.out = "ok" /\ k = Len(C.seq) + 1
    /\ LET W == Meaning(C)
           bad == {l \in DOMAIN W : store[l] # W[l]}
           \* a destination that already held its value needs no move
           unl == {d \in Dests(C) : SourceOf(C, d) # d /\ d \notin brought}
       IN IF bad \cap Dests(C) # {} THEN
             Fail("dest", CHOOSE l \in bad \cap Dests(C) : TRUE)
          ELSE IF bad # {} THEN Fail("destroyed", CHOOSE l \in bad : TRUE)
          ELSE IF unl # {} THEN Fail("label", CHOOSE l \in unl : TRUE)
          ELSE /\ k' = k + 1
               /\ UNCHANGED <<ci, store, brought, err>>

Next == Refused \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == k \in 1..(Len(C.seq) + 2) /\ DOMAIN store = 1..C.n
Correct == err = ""
=============================================================================
