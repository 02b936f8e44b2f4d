---------------------------- MODULE FlowGraph ------------------------------
(***************************************************************************)
(* Control-flow graphs: reachability, depth-first postorder, dominance.    *)
(*                                                                         *)
(* The specification is a machine that walks the graph: a token starts at  *)
(* the entry block and follows arbitrary edges.  `seen' is the set of      *)
(* blocks a walk has visited so far.  TLC explores all walks, so           *)
(*     a dominates b   iff   every walk that ends in b has visited a.      *)
(* For each case the machine first checks the recorded postorder, then     *)
(* walks; at every step the recorded answers must agree with the walk:     *)
(* whatever is recorded to dominate the token's block must be in `seen'    *)
(* (no walk avoids it); and the complement, "recorded not to dominate",    *)
(* is decided on the set of blocks reachable without it.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet
VARIABLES ci, at, seen, err
vars == <<ci, at, seen, err>>
C == Cases[ci]
Range(s) == {s[i] : i \in 1..Len(s)}
Blocks(c) == 1..c.n
Succs(c, b) == Range(c.s[b])

RECURSIVE Grow(_, _, _, _)
Grow(c, S, front, allowed) ==
    IF front = {} THEN S
    ELSE LET new == TLCEval((UNION {Succs(c, b) : b \in front} \cap allowed) \ S)
         IN Grow(c, TLCEval(S \cup new), new, allowed)
Closure(c, S, allowed) == Grow(c, S, S, allowed)

Reachable(c) == TLCEval(Closure(c, {c.e}, Blocks(c)))
(* Blocks that some walk from the entry reaches without passing a.         *)
Avoiding(c, a) == IF a = c.e THEN {} ELSE Closure(c, {c.e}, Blocks(c) \ {a})

Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))

(***************************************************************************)
(* A postorder lists every reachable block once, and a block comes after   *)
(* its successors except along an edge back to a block whose exploration   *)
(* had begun earlier: such a target reaches the block through blocks       *)
(* listed no later than itself.                                            *)
(***************************************************************************)
PostorderBad(c, R) ==
    \/ Range(c.po) # R
    \/ Len(c.po) # Cardinality(R)
    \/ c.po[Len(c.po)] # c.e
    \/ LET ix == TLCEval([b \in R |-> CHOOSE i \in 1..Len(c.po) : c.po[i] = b]) IN
       \E u \in R : \E v \in Succs(c, u) :
          /\ ix[v] > ix[u]
          /\ u \notin Closure(c, {v}, {x \in R : ix[x] <= ix[v]})

Recorded(c, b) == {a \in Reachable(c) : c.dom[a][b]}

(* The immediate dominator is dominated by every other strict dominator.   *)
IdomBad(c, R, dom) ==
    {b \in R :
        LET strict == {a \in R : b \in dom[a] /\ a # b} IN
        IF b = c.e THEN c.idom[b] # 0
        ELSE \/ c.idom[b] \notin strict
             \/ \E a \in strict : c.idom[b] \notin dom[a]}

(* Block boundaries and the block of every instruction.                    *)
RangesBad(c) ==
    c.cfg /\ \/ Len(c.ib) # c.ni
             \/ \E b \in Blocks(c) :
                  \/ c.be[b] # 2 * (c.r[b][1] - 1)
                  \/ c.bx[b] # 2 * (c.r[b][2] - 1) - 1
                  \/ \E i \in c.r[b][1]..(c.r[b][2] - 1) : c.ib[i] # b

(* Loop depth.  An edge to a block that is laid out no later is the way    *)
(* back of a loop, which extends from its head to the last such edge.      *)
(* Where loops are laid out nested in each other (every way back belongs   *)
(* to the innermost loop that is open there) the depth of a block is the   *)
(* number of loops around it.  Elsewhere the estimate is not specified.    *)
Backs(c) == {<<u, h>> \in Blocks(c) \X Blocks(c) : h <= u /\ h \in Succs(c, u)}
Last(B, h) == CHOOSE u \in {e[1] : e \in {x \in B : x[2] = h}} :
                \A e \in B : e[2] = h => e[1] <= u
Nested(c, B, H, last) ==
    /\ \A e \in B, f \in B : e[1] = f[1] => e = f
    /\ \A e \in B : \A h \in H : h > e[2] /\ h <= e[1] => last[h] < e[1]
    /\ \A b \in Blocks(c) : Cardinality(Succs(c, b)) = Len(c.s[b])
DepthBad(c) ==
    c.cfg /\ LET B == TLCEval(Backs(c))
                 H == {e[2] : e \in B}
                 last == TLCEval([h \in H |-> Last(B, h)])
             IN /\ Nested(c, B, H, last)
                /\ \E b \in Blocks(c) : c.ld[b] # Cardinality({h \in H : h <= b /\ b <= last[h]})

Init ==
    /\ ci \in 1..Len(Cases)
    /\ at = 0 /\ seen = {} /\ err = ""

Start ==
    /\ at = 0 /\ err = ""
    /\ LET R == Reachable(C)
           dom == TLCEval([a \in R |-> R \ Avoiding(C, a)])
       IN err' =
            IF C.out # "ok" THEN "panic"
            ELSE IF PostorderBad(C, R) THEN "postorder"
            ELSE IF \E a \in R, b \in R : C.dom[a][b] # (b \in dom[a]) THEN "dominates"
            ELSE IF IdomBad(C, R, dom) # {} THEN "idom"
            ELSE IF RangesBad(C) THEN "ranges"
            ELSE IF DepthBad(C) THEN "depth"
            ELSE ""
    /\ IF err' # "" THEN Report(err', C.msg) ELSE TRUE
    /\ at' = C.e /\ seen' = {C.e} /\ ci' = ci

Walk ==
    /\ at # 0 /\ err = "" /\ C.n <= 5
    /\ at' \in Succs(C, at)
    /\ seen' = seen \cup {at'}
    /\ IF Recorded(C, at') \subseteq seen' THEN err' = ""
       ELSE Report("walk", at') /\ err' = "walk"
    /\ ci' = ci

Next == Start \/ Walk
Spec == Init /\ [][Next]_vars
(* Only blocks reachable from the entry are ever visited.                  *)
WalkOK == at # 0 => seen \subseteq Reachable(C) /\ at \in seen
Correct == err = ""
=============================================================================
