-------------------------------- MODULE Ssa --------------------------------
(***************************************************************************)
(* Which input functions are acceptable.                                   *)
(*                                                                         *)
(* The dynamic half is a machine that executes the control-flow graph: its *)
(* state is the block it is in and the set of virtual registers that have  *)
(* been given a value on the way there.  Reading one that has no value is  *)
(* an illegal use.  The static half is a list of rules about single        *)
(* definitions, block structure, branch arguments and critical edges.      *)
(*                                                                         *)
(* A case is a function with the verdict of the real code: "ok", or the    *)
(* name of a rule and what broke it.  An "ok" is right if no rule is       *)
(* broken; a complaint is right if that very rule is broken at that place. *)
(* What a block that no path reaches does with its uses is unspecified.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet

VARIABLES ci, b, d
vars == <<ci, b, d>>
C == Cases[ci]
Range(s) == {s[i] : i \in 1..Len(s)}
Blocks(c) == 1..Len(c.blocks)
IsTerm(i) == i.t \in {"ret", "br"}

(* ------------------------------------------------------------ static rules *)
(* Where a vreg is defined: <<block, 0, position>> for a parameter,         *)
(* <<block, instruction, position>> for an instruction.  Where a function   *)
(* may (c.m) the definitions of a vreg by one instruction count as one.     *)
DefSites(c) ==
    UNION {{<<c.blocks[x].p[k], x, 0, k>> : k \in 1..Len(c.blocks[x].p)} : x \in Blocks(c)}
    \cup UNION {{<<c.insts[i].d[k], 0, i, IF c.m THEN 0 ELSE k>> : k \in 1..Len(c.insts[i].d)} : i \in 1..Len(c.insts)}

BadDefs(c) ==
    LET S == DefSites(c) IN
    {<<"ssa", s[1], s[3]>> : s \in {x \in S :
        \/ x[1] > c.nv
        \/ \E y \in S : y # x /\ y[1] = x[1]}}

BadBlocks(c) ==
    {<<"bb", x, 0>> : x \in {y \in Blocks(c) :
        \E i \in c.blocks[y].f..c.blocks[y].l : IsTerm(c.insts[i]) # (i = c.blocks[y].l)}}
    \cup (IF c.blocks[c.entry].p = << >> THEN {} ELSE {<<"bb", c.entry, 0>>})
    \cup {<<"bb", y, 0>> : y \in UNION {Range(c.blocks[x].s) : x \in Blocks(c)} \ Blocks(c)}

(* Ways of getting into a block: edges, and being the entry.                *)
Entrances(c, x) ==
    Cardinality(UNION {{<<y, k>> : k \in {k \in 1..Len(c.blocks[y].s) : c.blocks[y].s[k] = x}} : y \in Blocks(c)})
    + (IF x = c.entry THEN 1 ELSE 0)

Edges(c) == UNION {{<<x, k>> : k \in 1..Len(c.blocks[x].s)} : x \in Blocks(c)}
To(c, e) == c.blocks[e[1]].s[e[2]]
RealEdges(c) == {e \in Edges(c) : To(c, e) \in Blocks(c)}
Term(c, x) == c.insts[c.blocks[x].l]

BadEdges(c) ==
    {<<"crit", e[1], To(c, e)>> : e \in {x \in RealEdges(c) :
        Len(c.blocks[x[1]].s) > 1 /\ Entrances(c, To(c, x)) > 1}}
    \cup {<<"brarg", c.blocks[e[1]].l, 0>> : e \in {x \in RealEdges(c) :
        Term(c, x[1]).n > 0 /\ Entrances(c, To(c, x)) > 1}}
    \cup {<<"branch", c.blocks[e[1]].l, 0>> : e \in {x \in RealEdges(c) :
        /\ Term(c, x[1]).t = "br"
        /\ Len(c.blocks[x[1]].a[x[2]]) # Len(c.blocks[To(c, x)].p)}}

Static(c) == BadDefs(c) \cup BadBlocks(c) \cup BadEdges(c)

(* ------------------------------------------------------------- execution *)
RECURSIVE Exec(_, _, _, _)
(* Execute instructions i..l with values for the vregs in D; returns        *)
(* <<values, illegal uses>>.                                                *)
Exec(c, i, l, S) ==
    IF i > l THEN S
    ELSE LET ins == c.insts[i]
             ill == {<<"ssa", v, i>> : v \in Range(ins.u) \ S[1]}
         IN Exec(c, i + 1, l, <<S[1] \cup {v \in Range(ins.d) : v <= c.nv}, S[2] \cup ill>>)

Run(c, x, D) ==
    LET bl == c.blocks[x]
        R == Exec(c, bl.f, bl.l, <<D \cup {v \in Range(bl.p) : v <= c.nv}, {}>>)
        args == IF c.insts[bl.l].t = "br" THEN UNION {Range(bl.a[k]) : k \in 1..Len(bl.a)} ELSE {}
    IN <<R[1], R[2] \cup {<<"ssa", v, bl.l>> : v \in args \ R[1]}>>

Init ==
    /\ ci \in 1..Len(Cases)
    /\ b = C.entry
    /\ d = {}
    /\ TLCSet(ci, [ill |-> {}, reached |-> {}])

Step ==
    LET R == Run(C, b, d) IN
    /\ TLCSet(ci, [ill |-> TLCGet(ci).ill \cup R[2], reached |-> TLCGet(ci).reached \cup {b}])
    /\ \E s \in Range(C.blocks[b].s) \cap Blocks(C) : b' = s /\ d' = R[1]
    /\ UNCHANGED ci

(* The last block of a path still has to be executed.                       *)
Stop ==
    LET R == Run(C, b, d) IN
    /\ Range(C.blocks[b].s) \cap Blocks(C) = {}
    /\ TLCSet(ci, [ill |-> TLCGet(ci).ill \cup R[2], reached |-> TLCGet(ci).reached \cup {b}])
    /\ UNCHANGED vars

Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
Defined == d \subseteq 1..C.nv

(* --------------------------------------------------------------- verdicts *)
Unreached(c, k, r) ==
    /\ k[1] = "ssa" /\ k[3] # 0
    /\ \E x \in Blocks(c) \ r.reached : k[3] \in c.blocks[x].f..c.blocks[x].l

Explored ==
    \A n \in 1..Len(Cases) :
        LET c == Cases[n]
            r == TLCGet(n)
            rules == Static(c) \cup r.ill
            k == <<c.res, c.x, c.y>>
            Tell(code, x) == PrintT("VERR|" \o c.id \o "|" \o code \o "|" \o ToString(x))
        IN IF c.res = "panic" THEN Tell("panic", c.msg)
           ELSE IF c.res = "ok"
             THEN rules # {} => Tell("accepts-broken", CHOOSE x \in rules : TRUE)
           ELSE (k \notin rules /\ ~ Unreached(c, k, r)) => Tell("rejects", k)
=============================================================================
