------------------------------ MODULE Programs ------------------------------
(* Every small function, as the behaviours of a machine that writes one.     *)
(*                                                                           *)
(* A behaviour picks the shape of the control-flow graph and then writes the *)
(* blocks in order, operand by operand.  The guards are what a function must *)
(* satisfy to be an input of the allocators (see lib.rs, trait Function):    *)
(* every use is dominated by its only definition, the arguments of a branch  *)
(* match the parameters of its target, two fixed operands of one instruction *)
(* do not want one register at the same point, a clobber is not written by   *)
(* the instruction that clobbers it, and so on.  TLC visits every state, so  *)
(* every function within the bounds is printed exactly once; bin/check gives *)
(* each of them to the real allocators and their answers to RegMachine.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d

MaxTotal  == Env("PR_TOTAL", 3)    \* operands of the whole function
MaxOps    == Env("PR_OPS", 3)      \* operands of one instruction
MaxInsts  == Env("PR_INSTS", 3)    \* instructions of one block
NumRegs   == Env("PR_REGS", 2)     \* registers
MaxClob   == Env("PR_CLOB", 1)     \* instructions with clobbers
Rich      == Env("PR_RICH", 1)     \* 1: also stack operands, early defs
Shapes    == CASE Env("PR_SHAPE", 0) = 0 -> {"line"}
               [] Env("PR_SHAPE", 0) = 1 -> {"step", "diamond"}
               [] OTHER -> {"loop"}

Regs == 0 .. NumRegs - 1

(* The shapes: successors, number of parameters, immediate dominator.        *)
Succ(s) == CASE s = "line"    -> <<<<>>>>
             [] s = "step"    -> <<<<2>>, <<>>>>
             [] s = "diamond" -> <<<<2, 3>>, <<4>>, <<4>>, <<>>>>
             [] s = "loop"    -> <<<<2>>, <<3, 4>>, <<2>>, <<>>>>
Param(s, b) == CASE s = "step" /\ b = 2    -> {0}
                 [] s = "diamond" /\ b = 4 -> {0}
                 [] s = "loop" /\ b = 2    -> {0}
                 [] OTHER -> {}
Idom(s, b) == CASE b = 1 -> 0
                [] s = "step"    -> 1
                [] s = "diamond" -> 1
                [] s = "loop"    -> IF b = 2 THEN 1 ELSE 2
                [] OTHER -> 0
NParams(s) == IF s = "line" THEN 0 ELSE 1

VARIABLES
  shape,
  blk,      \* the block being written, 0 when the function is complete
  cur,      \* operands of the instruction being written
  text,     \* what is written already
  ninst,    \* instructions of this block
  total,    \* operands so far
  nclob,    \* instructions with clobbers so far
  nv,       \* vregs so far
  av        \* for the blocks written: the vregs available at their ends

vars == <<shape, blk, cur, text, ninst, total, nclob, nv, av>>

-----------------------------------------------------------------------------
(* Operands: a vreg, use or def, early or late, and a constraint.            *)
Fixed(r) == [t |-> "fix", r |-> r]
Plain(t) == [t |-> t, r |-> 0]
Cons == {Plain("any"), Plain("reg")} \cup {Fixed(r) : r \in Regs}
        \cup (IF Rich = 1 THEN {Plain("stack")} ELSE {})

Early(o) == ~(o.k = "d" /\ o.p = "l")
Late(o)  == ~(o.k = "u" /\ o.p = "e")
Reuses(ops) == {i \in 1..Len(ops) : ops[i].c.t = "reuse"}

\* No two operands of the instruction want one register at one point.
FixedApart(ops) ==
  \A i, j \in 1..Len(ops) :
    i < j /\ ops[i].c.t = "fix" /\ ops[j].c.t = "fix" /\ ops[i].c.r = ops[j].c.r
      => ~(Early(ops[i]) /\ Early(ops[j])) /\ ~(Late(ops[i]) /\ Late(ops[j]))

\* A vreg with a stack operand has no other operand in the instruction.
StackAlone(ops) ==
  \A i, j \in 1..Len(ops) :
    i # j /\ ops[i].v = ops[j].v => ops[i].c.t # "stack"

\* An instruction that reuses an input has no fixed operands.
ReusePlain(ops) ==
  Reuses(ops) # {} => \A i \in 1..Len(ops) : ops[i].c.t # "fix"

Legal(ops) == FixedApart(ops) /\ StackAlone(ops) /\ ReusePlain(ops)

Clobberable(ops) ==
  IF Reuses(ops) # {} THEN {}
  ELSE Regs \ {ops[i].c.r : i \in {j \in 1..Len(ops) : ops[j].c.t = "fix" /\ Late(ops[j])}}

Here == IF blk = 0 THEN {} ELSE av[blk]

UseOps == [v : Here, k : {"u"}, p : {"e", "l"}, c : Cons]
DefOps == [v : {nv}, k : {"d"}, p : IF Rich = 1 THEN {"e", "l"} ELSE {"l"}, c : Cons]
\* A def in the register of an input that nothing else reuses.
ReuseOps ==
  {[v |-> nv, k |-> "d", p |-> "l", c |-> [t |-> "reuse", r |-> i - 1]] :
     i \in {j \in 1..Len(cur) : cur[j].k = "u" /\ cur[j].p = "e" /\ cur[j].c.t = "reg"
              /\ \A m \in Reuses(cur) : cur[m].c.r # j - 1}}

-----------------------------------------------------------------------------
S(n) == ToString(n)
ConText(c) == CASE c.t = "fix" -> "fix=" \o S(c.r) \o "i"
                [] c.t = "reuse" -> "reuse=" \o S(c.r)
                [] OTHER -> c.t
OpText(o) == " " \o S(o.v) \o "i:" \o o.k \o o.p \o ":" \o ConText(o.c)
RECURSIVE OpsText(_)
OpsText(ops) == IF ops = <<>> THEN "" ELSE OpText(Head(ops)) \o OpsText(Tail(ops))
RECURSIVE ClobText(_)
ClobText(cs) == IF cs = {} THEN ""
                ELSE LET r == CHOOSE x \in cs : \A y \in cs : x <= y
                     IN " cl:" \o S(r) \o "i" \o ClobText(cs \ {r})
BlockText(s, b) == "block" \o (IF Param(s, b) = {} THEN ";" ELSE " 0i;")

Init ==
  /\ shape \in Shapes
  /\ blk = 1 /\ cur = <<>> /\ ninst = 0 /\ total = 0 /\ nclob = 0
  /\ nv = NParams(shape)
  /\ av = [b \in {1} |-> {}]
  /\ text = BlockText(shape, 1)

Write(op) ==
  /\ blk # 0 /\ total < MaxTotal /\ Len(cur) < MaxOps /\ ninst < MaxInsts
  /\ Legal(Append(cur, op))
  /\ cur' = Append(cur, op)
  /\ total' = total + 1
  /\ nv' = IF op.k = "d" THEN nv + 1 ELSE nv
  /\ UNCHANGED <<shape, blk, text, ninst, nclob, av>>

Close(cs) ==
  /\ blk # 0 /\ ninst < MaxInsts
  /\ cur # <<>> \/ cs # {}
  /\ cs # {} => nclob < MaxClob
  /\ text' = text \o "op" \o OpsText(cur) \o ClobText(cs) \o ";"
  /\ cur' = <<>>
  /\ ninst' = ninst + 1
  /\ nclob' = IF cs = {} THEN nclob ELSE nclob + 1
  /\ av' = [av EXCEPT ![blk] = @ \cup {cur[i].v : i \in 1..Len(cur)}]
  /\ UNCHANGED <<shape, blk, total, nv>>

\* The terminator: a return may use one vreg, a branch passes arguments.
RetUses ==
  IF total >= MaxTotal THEN {<<>>}
  ELSE {<<>>} \cup {<<[v |-> v, k |-> "u", p |-> "e", c |-> c]>> : v \in Here, c \in Cons}

Next1(b) == IF b = Len(Succ(shape)) THEN 0 ELSE b + 1
Enter(b) == av[Idom(shape, b)] \cup Param(shape, b)

Return(u) ==
  /\ blk # 0 /\ cur = <<>> /\ Succ(shape)[blk] = <<>>
  /\ total > 0
  /\ LET b == Next1(blk)
         t == text \o "ret" \o OpsText(u) \o ";"
     IN /\ b = 0
        /\ blk' = 0
        /\ text' = ""
        /\ av' = <<>>
        /\ PrintT("P|" \o S(NumRegs) \o "|" \o S(nv) \o "|" \o t)
  /\ total' = 0 /\ nclob' = 0 /\ nv' = 0 /\ ninst' = 0
  /\ UNCHANGED <<shape, cur>>

Branch(args) ==
  /\ blk # 0 /\ cur = <<>> /\ Succ(shape)[blk] # <<>>
  /\ LET ss == Succ(shape)[blk]
         needs == \E i \in 1..Len(ss) : Param(shape, ss[i]) # {}
         b == Next1(blk)
     IN /\ IF needs THEN args \in Here ELSE args = 0
        /\ blk' = b
        /\ av' = [x \in 1..b |-> IF x < b THEN av[x] ELSE Enter(b)]
        /\ text' = text \o "br;"
             \o (IF Len(ss) = 1
                 THEN "succ " \o S(ss[1] - 1) \o (IF needs THEN " " \o S(args) \o "i;" ELSE ";")
                 ELSE "succ " \o S(ss[1] - 1) \o ";succ " \o S(ss[2] - 1) \o ";")
             \o BlockText(shape, b)
  /\ ninst' = 0
  /\ UNCHANGED <<shape, cur, total, nclob, nv>>

Next ==
  \/ \E op \in UseOps \cup DefOps \cup ReuseOps : Write(op)
  \/ \E cs \in SUBSET Clobberable(cur) : Close(cs)
  \/ \E u \in RetUses : Return(u)
  \/ \E a \in (Here \cup {0}) : Branch(a)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the guards are there for. *)
WellFormed ==
  blk # 0 =>
    /\ total <= MaxTotal
    /\ Here \subseteq 0 .. nv - 1
    /\ \A i \in 1..Len(cur) : cur[i].k = "u" => cur[i].v \in Here
    /\ \A i, j \in 1..Len(cur) : i # j /\ cur[i].k = "d" => cur[i].v # cur[j].v
=============================================================================
