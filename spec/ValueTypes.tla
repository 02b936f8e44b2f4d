----------------------------- MODULE ValueTypes ----------------------------
(***************************************************************************)
(* Packed value types (registers, virtual registers, operands, locations,  *)
(* program points, ranges): the abstract value of a packed object is the   *)
(* tuple of things it was made from.  A case is a list of observations     *)
(*     <<what was made, arguments, what the accessors said>>               *)
(* and the machine steps through it.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet

VARIABLES ci, k, err
vars == <<ci, k, err>>
C == Cases[ci]
Bit(b) == IF b THEN 1 ELSE 0
Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))

MAXVREG == 1073741823     \* 2^30 - 1: "no virtual register"
ANY == 0  REG == 1  STACK == 2  FIXED == 3  REUSE == 4  LIMIT == 5
WRITE == 0  READ == 1  EARLY == 0  LATE == 1

(* What the accessors of an operand must say:                              *)
(* vreg, its class, class, kind, position, constraint, its argument and    *)
(* register class, survives packing, fixed non-allocatable register.       *)
Seen(v, c, kind, pos, con, arg) ==
    << v, c, c, kind, pos, con,
       IF con \in {FIXED, REUSE, LIMIT} THEN arg ELSE 0,
       IF con = FIXED THEN c ELSE 0,
       1,
       IF con = FIXED /\ v = MAXVREG THEN arg + 64 * c ELSE -1 >>

(* The operand constructors.                                               *)
Helper(n, v, c, hw, i) ==
    CASE n = "reg_use"                -> Seen(v, c, READ, EARLY, REG, 0)
      [] n = "reg_use_at_end"         -> Seen(v, c, READ, LATE, REG, 0)
      [] n = "reg_def"                -> Seen(v, c, WRITE, LATE, REG, 0)
      [] n = "reg_def_at_start"       -> Seen(v, c, WRITE, EARLY, REG, 0)
      [] n = "reg_temp"               -> Seen(v, c, WRITE, EARLY, REG, 0)
      [] n = "reg_reuse_def"          -> Seen(v, c, WRITE, LATE, REUSE, i)
      [] n = "reg_fixed_use"          -> Seen(v, c, READ, EARLY, FIXED, hw)
      [] n = "reg_fixed_def"          -> Seen(v, c, WRITE, LATE, FIXED, hw)
      [] n = "reg_fixed_use_at_end"   -> Seen(v, c, READ, LATE, FIXED, hw)
      [] n = "reg_fixed_def_at_start" -> Seen(v, c, WRITE, EARLY, FIXED, hw)
      [] n = "any_use"                -> Seen(v, c, READ, EARLY, ANY, 0)
      [] n = "any_def"                -> Seen(v, c, WRITE, LATE, ANY, 0)
      [] n = "fixed_nonallocatable"   -> Seen(MAXVREG, c, READ, EARLY, FIXED, hw)

(* Program points in execution order: before i, after i, before i+1, ...   *)
Before(i, a, j, b) == i < j \/ (i = j /\ a < b)
NextPoint(i, a) == IF a = 0 THEN <<i, 1>> ELSE <<i + 1, 0>>
PrevPoint(i, a) == IF a = 1 THEN <<i, 0>> ELSE <<i - 1, 1>>

Expected(n, a) ==
    CASE n = "preg" ->
           \* the invalid register shares its encoding with integer register 63
           LET inv == a[1] = 63 /\ a[2] = 0 IN
           << a[1], a[2], a[1] + 64 * a[2], 1, Bit(~ inv), Bit(inv), 63 >>
      [] n = "vreg" -> << a[1], a[2], 1, 1, 0 >>
      [] n = "slot" -> << a[1], a[1] + a[2], 1, 0, 1, 0 >>
      [] n = "alloc" ->
           << a[1], a[2], Bit(a[1] = 0), Bit(a[1] # 0), Bit(a[1] = 1), Bit(a[1] = 2),
              IF a[1] = 1 THEN a[2] ELSE -1, IF a[1] = 2 THEN a[2] ELSE -1, 1 >>
      [] n = "operand" -> Seen(a[1], a[2], a[5], a[6], a[3], a[4])
      [] n = "point" ->
           << a[1], a[2],
              Bit(Before(a[1], a[2], a[3], a[4])),
              Bit(a[1] = a[3] /\ a[2] = a[4]),
              Bit(Before(a[3], a[4], a[1], a[2])) >>
           \o NextPoint(a[1], a[2]) \o PrevPoint(a[1], a[2]) \o << 1, 1, 1 >>
      [] n = "range" ->
           <<a[2]>> \o (IF a[2] = 0 THEN << -1, -1, -1, -1 >>
                        ELSE << a[1], a[1] + a[2] - 1, a[2] - 1, a[1] + 1 >>)
           \o [i \in 1..a[2] |-> a[1] + i - 1]
      [] n = "rangeback" -> [i \in 1..a[2] |-> a[1] + a[2] - i]
      [] n = "index" -> << a[1], 1, 0, a[1] + 1, a[1] - 1, 1, 1 >>
      [] n = "same" ->
           LET sv == Bit(a[1] = a[3] /\ a[2] = a[4])
               sp == Bit(a[5] = a[6] /\ a[2] = a[4])
           IN << sv, sp, sp, sv, sv, Bit(a[5] = a[6]) >>
      [] OTHER -> Helper(n, a[1], a[2], a[3], a[4])

Init == ci \in 1..Len(Cases) /\ k = 1 /\ err = ""
Step ==
    /\ err = "" /\ k <= Len(C.ops)
    /\ LET o == C.ops[k] IN
       IF o[3] = Expected(o[1], o[2]) THEN err' = ""
       ELSE Report("answer", <<o[1], o[2], o[3], Expected(o[1], o[2])>>) /\ err' = "answer"
    /\ k' = k + 1 /\ ci' = ci
Panicked ==
    /\ err = "" /\ C.out # "ok" /\ k = Len(C.ops) + 1
    /\ Report("panic", C.msg) /\ err' = "panic" /\ UNCHANGED <<ci, k>>
Next == Step \/ Panicked
Spec == Init /\ [][Next]_vars
Correct == err = ""
TypeOK == k \in 1..(Len(C.ops) + 1)
=============================================================================
