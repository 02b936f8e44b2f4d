------------------------- MODULE EliminatorDesign --------------------------
(***************************************************************************)
(* The DESIGN of the redundant-move eliminator, exhaustively.              *)
(*                                                                         *)
(* The eliminator remembers for some locations that they are copies of     *)
(* another location.  `copy' is that memory, `rev' the set of locations    *)
(* filed under each original.  The environment is arbitrary: any move, any *)
(* overwriting, any join, for ever.  Soundness is the invariant that a     *)
(* remembered copy really holds the same value as its original, hence that *)
(* a move called redundant changes nothing.                                *)
(*                                                                         *)
(* `val' only matters up to equality, so it is kept in a canonical form    *)
(* (every location is mapped to the smallest location with its value):     *)
(* the state space is finite and TLC explores all histories of all         *)
(* lengths.                                                                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS N,            \* number of locations
          Regs          \* which of 1..N are registers
Locs == 1..N
VARIABLES copy,  \* Locs -> original or 0
          rev,   \* Locs -> set of locations filed as its copies
          val,   \* canonical partition of the locations by value
          ok     \* no move that was needed has been dropped
vars == <<copy, rev, val, ok>>

Canon(f) == [l \in Locs |-> CHOOSE m \in Locs : f[m] = f[l] /\ \A x \in Locs : f[x] = f[l] => m <= x]

Init ==
    /\ copy = [l \in Locs |-> 0]
    /\ rev = [l \in Locs |-> {}]
    /\ val = [l \in Locs |-> l]
    /\ ok = TRUE

ClearCopy(a) == [l \in Locs |-> IF l = a \/ l \in rev[a] THEN 0 ELSE copy[l]]
ClearRev(a) == [rev EXCEPT ![a] = {}]

Move(from, to) ==
    /\ from # to
    /\ LET elide == copy[to] = from \/ copy[from] = to
           c1 == IF elide THEN copy ELSE ClearCopy(to)
           r1 == IF elide THEN rev ELSE ClearRev(to)
           track == from \in Regs \/ to \in Regs
       IN /\ copy' = IF track THEN [c1 EXCEPT ![to] = from] ELSE c1
          /\ rev' = IF track THEN [r1 EXCEPT ![from] = @ \cup {to}] ELSE r1
          /\ ok' = (ok /\ (elide => val[from] = val[to]))
          /\ val' = Canon([val EXCEPT ![to] = val[from]])

Self(a) ==                        \* a move of a location to itself, renaming the value
    /\ copy' = ClearCopy(a) /\ rev' = ClearRev(a)
    /\ UNCHANGED <<val, ok>>

Write(a) ==
    /\ copy' = ClearCopy(a) /\ rev' = ClearRev(a)
    /\ val' = Canon([val EXCEPT ![a] = N + 1])
    /\ ok' = ok

Join ==
    /\ copy' = [l \in Locs |-> 0] /\ rev' = [l \in Locs |-> {}]
    /\ val' = [l \in Locs |-> l]
    /\ ok' = ok

Next == Join \/ \E a \in Locs : Write(a) \/ Self(a) \/ \E b \in Locs : Move(a, b)
Spec == Init /\ [][Next]_vars

Sound == ok
CopiesAreCopies == \A l \in Locs : copy[l] # 0 => val[l] = val[copy[l]]
Filed == \A l \in Locs : copy[l] # 0 => l \in rev[copy[l]]
=============================================================================
