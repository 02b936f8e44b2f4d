----------------------------- MODULE RegMachine -----------------------------
(***************************************************************************)
(* The meaning of an allocated function.                                   *)
(*                                                                         *)
(* A case is one run of the allocator: the input function, the machine     *)
(* environment and everything the allocator returned (operand allocations, *)
(* edits, debug locations, spill slots), recorded from the real code.      *)
(*                                                                         *)
(* The specification is an abstract machine that EXECUTES the allocated    *)
(* function.  Its store `h' maps every machine location (register or       *)
(* spill slot) to the set of virtual registers whose current value the     *)
(* location holds.  Control flow is nondeterministic: TLC explores every   *)
(* path, including every number of loop iterations, so a behaviour of the  *)
(* machine is an execution of the program the allocator produced.          *)
(*                                                                         *)
(* An instruction is an adversarial micro-sequence:                        *)
(*    write early defs; read early uses; write late defs and clobbers;     *)
(*    read late uses; and at the end every def must still be there.        *)
(* A move copies the contents of one location to another.  A write to a    *)
(* location destroys everything that overlaps it (multi-word slots) and    *)
(* makes all other copies of the same vreg stale.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)

(* Quiet = FALSE makes violations states that TLC reports as invariant     *)
(* violations with a trace; Quiet = TRUE prints them and keeps exploring.  *)
CONSTANT Quiet

VARIABLES ci,    \* which case
          ph,    \* "load" | "mv" | "inst" | "aft" | "edge" | "halt" | "err"
          pc,    \* instruction index, 1-based
          blk,   \* block index, 1-based
          ed,    \* next edit index
          h,     \* store: location -> set of vregs
          lost,  \* vregs whose last copy was destroyed by an instruction
          err    \* "" or error code

vars == <<ci, ph, pc, blk, ed, h, lost, err>>

Range(s) == {s[i] : i \in 1..Len(s)}

(***************************************************************************)
(* Locations                                                               *)
(***************************************************************************)
NL(c) == Len(c.locs)
IsReg(c, a) == c.locs[a].k = "r"
IsSlot(c, a) == c.locs[a].k = "s"
InEnv(c, tab, a) == IsReg(c, a) /\ c.locs[a].n \in Range(tab[c.locs[a].c])
IsAllocatable(c, a) == InEnv(c, c.env.a, a)
IsScratch(c, a) == InEnv(c, c.env.s, a)
IsFixedStack(c, a) == InEnv(c, c.env.f, a)
(* Anything that lives in memory: a spill slot or a fixed stack slot.      *)
IsStack(c, a) == IsSlot(c, a) \/ IsFixedStack(c, a)

(* First word of a slot; a multi-word slot is named by its first or by its *)
(* last word.                                                              *)
SlotBase(c, a) == IF c.last THEN c.locs[a].n - c.locs[a].w + 1 ELSE c.locs[a].n
SlotWords(c, a) == SlotBase(c, a) .. (SlotBase(c, a) + c.locs[a].w - 1)

Overlap(c, a, b) ==
    \/ a = b
    \/ /\ IsSlot(c, a) /\ IsSlot(c, b)
       /\ SlotWords(c, a) \cap SlotWords(c, b) # {}

RegLoc(c, cl, n) == {a \in 1..NL(c) : c.locs[a].k = "r" /\ c.locs[a].c = cl /\ c.locs[a].n = n}

(***************************************************************************)
(* Operands                                                                *)
(***************************************************************************)
Ops(ins) == {j \in 1..Len(ins.o) : ins.o[j].v # 0}     \* real operands
EarlyUses(ins) == {j \in Ops(ins) : ins.o[j].k = "u" /\ ins.o[j].p = "e"}
LateUses(ins)  == {j \in Ops(ins) : ins.o[j].k = "u" /\ ins.o[j].p = "l"}
EarlyDefs(ins) == {j \in Ops(ins) : ins.o[j].k = "d" /\ ins.o[j].p = "e"}
LateDefs(ins)  == {j \in Ops(ins) : ins.o[j].k = "d" /\ ins.o[j].p = "l"}
ClobLocs(c, ins) == UNION {RegLoc(c, ins.cl[k][1], ins.cl[k][2]) : k \in 1..Len(ins.cl)}
ScratchLocs(c) == {a \in 1..NL(c) : IsScratch(c, a)}

(* An operand constraint is met by the location it was given.              *)
ConstraintOK(c, ins, j) ==
    LET o == ins.o[j] IN
    IF o.a = 0 THEN FALSE
    ELSE IF o.c = "nonalloc" \/ o.c = "fixed"
      THEN IsReg(c, o.a) /\ c.locs[o.a].c = o.xc /\ c.locs[o.a].n = o.x
    ELSE IF o.c = "any"
      THEN \/ IsSlot(c, o.a)
           \/ (IsAllocatable(c, o.a) \/ IsFixedStack(c, o.a)) /\ c.locs[o.a].c = c.vc[o.v]
    ELSE IF o.c = "reg"
      THEN IsAllocatable(c, o.a) /\ c.locs[o.a].c = c.vc[o.v]
    ELSE IF o.c = "stack"
      THEN \/ IsSlot(c, o.a)
           \/ IsFixedStack(c, o.a) /\ c.locs[o.a].c = c.vc[o.v]
    ELSE IF o.c = "limit"
      THEN IsAllocatable(c, o.a) /\ c.locs[o.a].c = c.vc[o.v] /\ c.locs[o.a].n < o.x
    ELSE IF o.c = "reuse"
      THEN o.a = ins.o[o.x].a
    ELSE FALSE

(***************************************************************************)
(* Static well-formedness of the output                                    *)
(***************************************************************************)
(* An instruction may name a definition several times, which counts as one *)
(* and is allocated once.                                                  *)
SameDef(ins, j) ==
    \A x \in Ops(ins) :
        (ins.o[x].k = "d" /\ ins.o[j].k = "d" /\ ins.o[x].v = ins.o[j].v) => ins.o[x].a = ins.o[j].a

BadConstraints(c) ==
    {<<i, j>> \in UNION {{<<i, j>> : j \in 1..Len(c.insts[i].o)} : i \in 1..Len(c.insts)} :
        ~ (ConstraintOK(c, c.insts[i], j) /\ SameDef(c.insts[i], j))}

EditClass(c, e) == {c.locs[e[k]].c : k \in {x \in {2, 3} : e[x] # 0 /\ IsReg(c, e[x])}}

EditProblem(c, k) ==
    LET e == c.edits[k] IN
    IF e[2] = 0 \/ e[3] = 0 THEN "none-alloc"
    ELSE IF k > 1 /\ c.edits[k - 1][1] > e[1] THEN "unsorted"
    ELSE IF e[1] >= 2 * Len(c.insts) THEN "past-end"
    ELSE IF IsStack(c, e[2]) /\ IsStack(c, e[3]) THEN "stack-to-stack"
    ELSE IF Cardinality(EditClass(c, e)) # 1 THEN "class"
    ELSE IF \E x \in {2, 3} : IsReg(c, e[x]) /\
              ~ (IsAllocatable(c, e[x]) \/ IsScratch(c, e[x]) \/ IsFixedStack(c, e[x]))
         THEN "foreign-register"
    ELSE IF \E b \in 1..Len(c.blocks) : e[1] = 2 * (c.blocks[b].l - 1) + 1 THEN "after-terminator"
    ELSE ""

BadEdits(c) == {<<k, EditProblem(c, k)>> : k \in {x \in 1..Len(c.edits) : EditProblem(c, x) # ""}}

(* Spill slots lie inside the declared frame and are aligned to the size   *)
(* of the class they hold.                                                 *)
BadSlots(c) ==
    {a \in 1..NL(c) : IsSlot(c, a) /\
        \/ SlotBase(c, a) < 0
        \/ SlotBase(c, a) + c.locs[a].w > c.ns
        \/ SlotBase(c, a) % c.locs[a].w # 0}

(* The edit offsets the recorder computed really partition the edit list.  *)
OffsetsOK(c) ==
    /\ \A i \in 1..Len(c.insts) :
         LET e == c.insts[i].e IN
         /\ e[1] = (IF i = 1 THEN 1 ELSE c.insts[i - 1].e[3])
         /\ e[1] <= e[2] /\ e[2] <= e[3]
         /\ \A k \in e[1]..(e[2] - 1) : c.edits[k][1] = 2 * (i - 1)
         /\ \A k \in e[2]..(e[3] - 1) : c.edits[k][1] = 2 * (i - 1) + 1
    /\ c.insts[Len(c.insts)].e[3] = Len(c.edits) + 1

(***************************************************************************)
(* Register demand.  Whenever every instruction is roomy, the allocator    *)
(* must not run out of registers: whatever registers the others take at    *)
(* the points where an operand needs one, one that it may use is left.     *)
(* (Neither allocator takes back a register it gave to an operand of the   *)
(* same instruction, so a mere matching of operands to registers may be    *)
(* missed; and an instruction that reuses an input keeps all its inputs to *)
(* the end.)  Fastalloc without a dedicated scratch register needs more:   *)
(* there clobbered and fixed registers are taken out altogether, a reuse   *)
(* pair counts twice, operands that may also be in memory take registers   *)
(* and one must be left for moves.                                         *)
(***************************************************************************)
Spans(ins, j) ==      \* the points of the instruction at which j needs it
    LET o == ins.o[j] IN
    IF \/ o.c = "reuse"
       \/ o.k = "u" /\ \E q \in Ops(ins) : ins.o[q].c = "reuse"
    THEN {"e", "l"}
    ELSE IF o.k = "u" /\ o.p = "e" THEN {"e"}
    ELSE IF o.k = "d" /\ o.p = "l" THEN {"l"}
    ELSE {"e", "l"}

RoomyGreedy(c, ins, cl) ==
    LET Mine == {j \in Ops(ins) : ins.o[j].v > 0 /\ c.vc[ins.o[j].v] = cl}
        Reg == {j \in Mine : ins.o[j].c \in {"reg", "limit", "reuse"}}
        Meet(j, q) == Spans(ins, j) \cap Spans(ins, q) # {}
        Taken(j) == {ins.o[q].x : q \in {y \in Mine : ins.o[y].c = "fixed" /\ Meet(j, y)}}
                    \cup (IF "l" \in Spans(ins, j)
                             THEN {ins.cl[k][2] : k \in {y \in 1..Len(ins.cl) : ins.cl[y][1] = cl}}
                             ELSE {})
        Free(j) == {n \in Range(c.env.a[cl]) :
                      n \notin Taken(j) /\ (ins.o[j].c = "limit" => n < ins.o[j].x)}
        Others(j) == {q \in Reg : q # j /\ Meet(j, q)}
    IN \A j \in Reg : Cardinality(Free(j)) > Cardinality(Others(j))

RoomyFast(c, ins, cl) ==
    LET Busy == {ins.cl[k][2] : k \in {x \in 1..Len(ins.cl) : ins.cl[x][1] = cl}}
                \cup {ins.o[j].x : j \in {x \in Ops(ins) : ins.o[x].c = "fixed" /\ ins.o[x].xc = cl}}
        Mine == {j \in Ops(ins) : ins.o[j].v > 0 /\ c.vc[ins.o[j].v] = cl}
        Need == Cardinality(Mine) + Cardinality({j \in Mine : ins.o[j].c = "reuse"})
        Lims == {ins.o[j].x : j \in {x \in Mine : ins.o[x].c = "limit"}}
        Free == {n \in Range(c.env.a[cl]) : n \notin Busy /\ \A l \in Lims : n < l}
    IN  Mine = {} \/ Cardinality(Free) > Need

RoomyInst(c, ins, cl) ==
    IF c.alg = "fast" /\ Len(c.env.s[cl]) = 0 THEN RoomyFast(c, ins, cl) ELSE RoomyGreedy(c, ins, cl)

Roomy(c) == \A i \in 1..Len(c.insts), cl \in 1..3 : RoomyInst(c, c.insts[i], cl)

(* How the run ended, if not with an output.                               *)
OutcomeProblem(c) ==
    IF c.out = "ok" THEN ""
    ELSE IF c.out = "err"
      THEN IF c.msg = "TooManyLiveRegs"
             THEN IF Roomy(c) THEN "toomany" ELSE ""
           ELSE IF c.msg = "TooManyOperands" /\ c.mo > 65535
             THEN ""        \* the documented limit of one instruction
             ELSE "rejected"
    ELSE c.out       \* panic, hang, crash, shape

(***************************************************************************)
(* Per-case tables, evaluated once.                                        *)
(***************************************************************************)
InsTab(c, scr, ins) ==
    [eu |-> EarlyUses(ins), lu |-> LateUses(ins),
     ed |-> EarlyDefs(ins), ld |-> LateDefs(ins),
     dv |-> {ins.o[j].v : j \in EarlyDefs(ins) \cup LateDefs(ins)},
     gone |-> ClobLocs(c, ins) \cup scr,
     reused |-> {ins.o[j].a : j \in {x \in Ops(ins) : ins.o[x].c = "reuse"}}]

CaseTab(c) ==
    IF c.out # "ok" THEN [bad |-> TRUE] ELSE
    LET scr == ScratchLocs(c) IN
    [ \* the other locations that a write to a location destroys
      ovl |-> [a \in 1..NL(c) |-> {b \in 1..NL(c) : b # a /\ Overlap(c, a, b)}],
      ins |-> [i \in 1..Len(c.insts) |-> InsTab(c, scr, c.insts[i])],
      lv  |-> [b \in 1..Len(c.blocks) |-> Range(c.blocks[b].lv)],
      ll  |-> [b \in 1..Len(c.blocks) |-> Range(c.blocks[b].ll)],
      ps  |-> [b \in 1..Len(c.blocks) |-> Range(c.blocks[b].p)] ]

Tab == [k \in 1..Len(Cases) |-> CaseTab(Cases[k])]

(***************************************************************************)
(* The store                                                               *)
(***************************************************************************)
(* Overwrite location t with the set V; overlapping slots are destroyed.   *)
Put(t, st, x, V) ==
    IF t.ovl[x] = {} THEN [st EXCEPT ![x] = V]
    ELSE [a \in DOMAIN st |-> IF a = x THEN V ELSE IF a \in t.ovl[x] THEN {} ELSE st[a]]

Forget(st, X) == IF X = {} THEN st ELSE [a \in DOMAIN st |-> IF a \in X THEN {} ELSE st[a]]

(* Define vregs: D is a set of operand indices.  All old copies of the     *)
(* defined vregs become stale, the target locations hold the new value.    *)
Define(t, st, ins, D) ==
    IF D = {} THEN st ELSE
    LET vs == {ins.o[j].v : j \in D}
        written == {ins.o[j].a : j \in D}
        side == UNION {t.ovl[a] : a \in written}
    IN [a \in DOMAIN st |->
          IF a \in written
            THEN LET here == {ins.o[j].v : j \in {x \in D : ins.o[x].a = a}} IN
                 IF Cardinality(here) > 1 \/ a \in side THEN {} ELSE here
          ELSE IF a \in side THEN {}
          ELSE st[a] \ vs]

(* Execute edits k .. n-1.                                                 *)
RECURSIVE Moves(_, _, _, _, _)
Moves(c, t, st, k, n) ==
    IF k >= n THEN st
    ELSE LET e == c.edits[k] IN
         Moves(c, t, IF e[2] = e[3] THEN st ELSE Put(t, st, e[3], st[e[2]]), k + 1, n)

(***************************************************************************)
(* Debug locations: <<label, from, to, location>>, points are 2*inst+after *)
(* and `to' is exclusive.  A location claims that the value of a vreg for  *)
(* which the label was requested is in the location at every point.        *)
(*                                                                         *)
(* Ion answers for the requested ranges only.  Fastalloc answers with the  *)
(* whole range of a labelled vreg, in layout order, so its claim is only   *)
(* about the points where that vreg is live.                               *)
(***************************************************************************)
Lax(c) == c.alg = "fast" /\ ~ c.strict

DebugRequested(c, lab, pt) ==
    {c.dr[k][1] : k \in {x \in 1..Len(c.dr) :
        /\ c.dr[x][4] = lab
        /\ Lax(c) \/ (2 * (c.dr[x][2] - 1) <= pt /\ pt < 2 * (c.dr[x][3] - 1))}}

LiveOut(c, b) ==
    UNION {LET t == c.blocks[c.blocks[b].s[k]] IN
           (Range(t.lv) \ Range(t.p))
           \cup {c.blocks[b].a[k][x] : x \in {y \in 1..Len(t.p) : t.p[y] \in Range(t.lv)}}
             : k \in 1..Len(c.blocks[b].s)}

(* Is v live just before instruction i of block b?                         *)
LiveFrom(c, b, i, v) ==
    LET touch == {k \in i..c.blocks[b].l : \E j \in Ops(c.insts[k]) : c.insts[k].o[j].v = v}
    IN IF touch = {} THEN v \in LiveOut(c, b)
       ELSE LET k == CHOOSE x \in touch : \A y \in touch : x <= y IN
            \E j \in Ops(c.insts[k]) : c.insts[k].o[j].v = v /\ c.insts[k].o[j].k = "u"

(* pending: vregs the instruction at this point redefines; skip: locations *)
(* that it may have overwritten already (the copy into a reused register). *)
DebugBad(c, st, b, i, pt, pending, skip) ==
    {k \in 1..Len(c.dl) :
        LET d == c.dl[k] IN
        /\ d[2] <= pt /\ pt < d[3]
        /\ d[4] \notin skip
        /\ \/ d[4] = 0
           \/ ~ \E v \in DebugRequested(c, d[1], pt) :
                 \/ v \in st[d[4]]
                 \/ v \in pending
                 \/ Lax(c) /\ ~ LiveFrom(c, b, i, v)}

(* Is v used later in block b, at or after instruction i?                  *)
Wanted(c, b, i, v) ==
    LET touch == {k \in i..c.blocks[b].l : \E j \in Ops(c.insts[k]) : c.insts[k].o[j].v = v}
    IN IF touch = {} THEN \E k \in 1..Len(c.blocks[b].a) : v \in Range(c.blocks[b].a[k])
       ELSE LET k == CHOOSE x \in touch : \A y \in touch : x <= y IN
            \E j \in Ops(c.insts[k]) : c.insts[k].o[j].v = v /\ c.insts[k].o[j].k = "u"

(* Nothing outside block b mentions v, and b is not its own successor.     *)
OnlyIn(c, b, v) ==
    /\ b \notin Range(c.blocks[b].s)
    /\ \A x \in 1..Len(c.blocks) : x # b =>
         /\ v \notin Range(c.blocks[x].p)
         /\ \A k \in 1..Len(c.blocks[x].a) : v \notin Range(c.blocks[x].a[k])
         /\ \A k \in c.blocks[x].f..c.blocks[x].l :
              \A j \in Ops(c.insts[k]) : c.insts[k].o[j].v # v

(* Requests that must be answered for at point pt (next instruction i) of  *)
(* block b and are not.  Fastalloc only answers for a request that lies    *)
(* within the vreg's live range, where no layout of blocks can confuse it. *)
DebugMissing(c, b, i, pt) ==
    {x \in 1..Len(c.dr) :
        LET q == c.dr[x] IN
        /\ 2 * (q[2] - 1) <= pt /\ pt < 2 * (q[3] - 1)
        /\ c.alg = "fast" =>
             /\ c.blocks[b].f <= q[2] /\ q[3] <= c.blocks[b].l
             /\ OnlyIn(c, b, q[1])
             /\ Wanted(c, b, q[2], q[1]) /\ Wanted(c, b, q[3], q[1])
        /\ Wanted(c, b, i, q[1])
        /\ ~ \E k \in 1..Len(c.dl) : c.dl[k][1] = q[4] /\ c.dl[k][2] <= pt /\ pt < c.dl[k][3]}

(* Ranges are requested, sorted by label and point, and (Ion) disjoint and *)
(* non-empty.                                                              *)
DebugShape(c) ==
    {k \in 1..Len(c.dl) :
        LET d == c.dl[k] IN
        \/ d[2] >= d[3]
        \/ k > 1 /\ LET q == c.dl[k - 1] IN
             \/ q[1] > d[1]
             \/ q[1] = d[1] /\ q[2] > d[2]
             \/ q[1] = d[1] /\ q[3] > d[2] /\ ~ Lax(c)
        \/ \E pt \in {d[2], d[3] - 1} : DebugRequested(c, d[1], pt) = {}}

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
C == Cases[ci]
I == C.insts[pc]
T == Tab[ci]

Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))

Fail(code, detail) ==
    /\ err' = code
    /\ ph' = "err"
    /\ Report(code, detail)
    /\ UNCHANGED <<ci, pc, blk, ed, h, lost>>

Init ==
    /\ ci \in 1..Len(Cases)
    /\ ph = "load"
    /\ pc = 0 /\ blk = 0 /\ ed = 0
    /\ h = << >>
    /\ lost = {}
    /\ err = ""

(* Static checks; the first problem of each kind is reported and the       *)
(* machine still runs unless the output cannot be executed at all.         *)
StaticCodes(c) ==
    (IF BadConstraints(c) # {} THEN {<<"constraint", CHOOSE x \in BadConstraints(c) : TRUE>>} ELSE {})
    \cup {<<"edit-" \o x[2], x[1]>> : x \in BadEdits(c)}
    \cup (IF BadSlots(c) # {} THEN {<<"slot", CHOOSE x \in BadSlots(c) : TRUE>>} ELSE {})
    \cup (IF DebugShape(c) # {} THEN {<<"debug-shape", CHOOSE x \in DebugShape(c) : TRUE>>} ELSE {})

Executable(c) ==
    /\ \A i \in 1..Len(c.insts) : \A j \in Ops(c.insts[i]) : c.insts[i].o[j].a # 0
    /\ \A k \in 1..Len(c.edits) : c.edits[k][2] # 0 /\ c.edits[k][3] # 0
    /\ OffsetsOK(c)

Enter(c, b) ==
    /\ blk' = b
    /\ pc' = c.blocks[b].f
    /\ ed' = c.insts[c.blocks[b].f].e[1]
    /\ ph' = "mv"

Load ==
    /\ ph = "load"
    /\ IF OutcomeProblem(C) # "" THEN Fail(OutcomeProblem(C), C.msg)
       ELSE IF C.out # "ok" THEN
            /\ ph' = "halt"
            /\ UNCHANGED <<ci, pc, blk, ed, h, lost, err>>
       ELSE LET S == StaticCodes(C) IN
            /\ \A x \in S : Report(x[1], x[2])
            /\ IF (~ Quiet /\ S # {}) \/ ~ Executable(C)
               THEN /\ ph' = "err"
                    /\ err' = IF S = {} THEN "edit-offsets" ELSE (CHOOSE x \in S : TRUE)[1]
                    /\ S = {} => Report("edit-offsets", 0)
                    /\ UNCHANGED <<ci, pc, blk, ed, h, lost>>
               ELSE /\ Enter(C, C.entry)
                    /\ h' = [a \in 1..NL(C) |-> {}]
                    /\ lost' = {}
                    /\ UNCHANGED <<ci, err>>

(* One move at a time, or all moves of a program point at once.            *)
DoMoves(end) ==
    LET n == IF Quiet THEN end ELSE ed + 1 IN
    /\ h' = Moves(C, T, h, ed, n)
    /\ ed' = n
    /\ UNCHANGED <<ci, ph, pc, blk, lost, err>>

MoveBefore == ph = "mv" /\ ed < I.e[2] /\ DoMoves(I.e[2])

MoveAfter == ph = "aft" /\ ed < I.e[3] /\ DoMoves(I.e[3])

(* What a failed read means: the value was there when the instruction      *)
(* started but the instruction itself destroyed it ("interf"), or an       *)
(* earlier instruction destroyed the last copy ("destroyed"), or it never  *)
(* was in that place ("use").                                              *)
ReadCode(j) ==
    LET o == I.o[j] IN
    IF o.v \in h[o.a] THEN "interf"
    ELSE IF o.v \in lost THEN "destroyed"
    ELSE "use"

AtEnd == pc = C.blocks[blk].l

Instr ==
    /\ ph = "mv" /\ ed = I.e[2]
    /\ LET t     == T.ins[pc]
           \* The moves of an edge may sit before a terminator.
           dbg   == IF C.dl = << >> \/ (AtEnd /\ C.blocks[blk].s # << >>) THEN {}
                    ELSE DebugBad(C, h, blk, pc, 2 * (pc - 1), t.dv, t.reused)
           miss  == IF C.dr = << >> THEN {} ELSE DebugMissing(C, blk, pc, 2 * (pc - 1))
           s1    == Define(T, h, I, t.ed)
           badE  == {j \in t.eu : I.o[j].v \notin s1[I.o[j].a]}
           s2    == Define(T, s1, I, t.ld)
           s3    == Forget(s2, t.gone)
           badL  == {j \in t.lu : I.o[j].v \notin s3[I.o[j].a]}
           badD  == {j \in t.ed \cup t.ld : I.o[j].v \notin s3[I.o[j].a]}
           hit   == UNION {h[a] \ s3[a] : a \in DOMAIN h}
           died  == {v \in hit \ t.dv : \A a \in DOMAIN h : v \notin s3[a]}
       IN IF dbg # {} THEN Fail("debug", <<pc, "before", CHOOSE k \in dbg : TRUE>>)
          ELSE IF miss # {} THEN Fail("debug-missing", <<pc, "before", CHOOSE k \in miss : TRUE>>)
          ELSE IF badE # {} THEN LET j == CHOOSE x \in badE : TRUE IN
                 Fail(ReadCode(j), <<pc, j>>)
          ELSE IF badL # {} THEN LET j == CHOOSE x \in badL : TRUE IN
                 Fail(ReadCode(j), <<pc, j>>)
          ELSE IF badD # {} THEN Fail("interf", <<pc, CHOOSE x \in badD : TRUE>>)
          ELSE /\ h' = s3
               /\ lost' = (lost \cup died) \ t.dv
               /\ ph' = "aft"
               /\ UNCHANGED <<ci, pc, blk, ed, err>>

Next1 ==      \* fall through to the next instruction of the block
    /\ ph = "aft" /\ ed = I.e[3] /\ ~ AtEnd
    /\ LET dbg == IF C.dl = << >> THEN {} ELSE DebugBad(C, h, blk, pc + 1, 2 * (pc - 1) + 1, {}, {})
           miss == IF C.dr = << >> THEN {} ELSE DebugMissing(C, blk, pc + 1, 2 * (pc - 1) + 1) IN
       IF dbg # {} THEN Fail("debug", <<pc, "after", CHOOSE k \in dbg : TRUE>>)
       ELSE IF miss # {} THEN Fail("debug-missing", <<pc, "after", CHOOSE k \in miss : TRUE>>)
       ELSE /\ pc' = pc + 1
            /\ ph' = "mv"
            /\ UNCHANGED <<ci, blk, ed, h, lost, err>>

(* Control transfer along the k-th outgoing edge: the block parameters of  *)
(* the target are, simultaneously, given the values of the arguments; the  *)
(* locations are untouched.                                                *)
AcrossEdge(c, t, st, b, k) ==
    LET to == c.blocks[b].s[k]
        ps == c.blocks[to].p
        as == c.blocks[b].a[k]
        live == t.lv[to]
        ll == t.ll[to]
        gone == t.ps[to]
        PP == {y \in 1..Len(ps) : ps[y] \in live}
    IN [a \in DOMAIN st |->
          IF a \notin ll THEN {}
          ELSE ((st[a] \ gone) \cap live) \cup {ps[x] : x \in {y \in PP : as[y] \in st[a]}}]

Edge ==
    /\ ph = "aft" /\ ed = I.e[3] /\ AtEnd
    /\ \E k \in 1..Len(C.blocks[blk].s) :
          LET to == C.blocks[blk].s[k] IN
          /\ h' = AcrossEdge(C, T, h, blk, k)
          /\ lost' = lost \cap (T.lv[to] \ T.ps[to])
          /\ Enter(C, to)
          /\ UNCHANGED <<ci, err>>

Return ==
    /\ ph = "aft" /\ ed = I.e[3] /\ AtEnd
    /\ C.blocks[blk].s = << >>
    /\ ph' = "halt"
    /\ h' = << >> /\ lost' = {} /\ ed' = 0
    /\ UNCHANGED <<ci, pc, blk, err>>

Next == Load \/ MoveBefore \/ Instr \/ MoveAfter \/ Next1 \/ Edge \/ Return

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Correct == err = ""

TypeOK ==
    /\ ph \in {"load", "mv", "aft", "err", "halt"}
    /\ ph \in {"mv", "aft"} => DOMAIN h = 1..NL(C)

(* Every non-terminal state has a successor: an execution never gets stuck *)
Progress == ph \in {"load", "mv", "aft"} => ENABLED Next
=============================================================================
