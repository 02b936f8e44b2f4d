---------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Sets, lists and orders of registers and indices.                        *)
(*                                                                         *)
(* A case is a history of operations on a real object together with its    *)
(* answers: <<name, numbers, list>>.  The specification keeps the          *)
(* mathematical value of the object and says which answers are right.      *)
(*                                                                         *)
(*   "iset"  two index sets            st = <<set, set>>                   *)
(*   "pset"  two register sets         st = <<set, set>>, universe 0..255  *)
(*   "lru"   recency order of a set of registers                           *)
(*           st = <<registers, those used so far, least recent first>>     *)
(*   "vset"  a set of virtual registers   st = set                         *)
(*   "trav"  the order in which registers are tried                        *)
(*           st = <<preferred, non-preferred>>                             *)
(*   "reqm"  merging of requirements: a requirement denotes a set of       *)
(*           locations, merging is intersection                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.RA_CASES)
CONSTANT Quiet

VARIABLES ci, k, st, err
vars == <<ci, k, st, err>>
C == Cases[ci]
Range(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Range(s)) = Len(s)
Bit(b) == IF b THEN 1 ELSE 0
Other(w) == 3 - w
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Report(code, detail) == PrintT("VERR|" \o C.id \o "|" \o code \o "|" \o ToString(detail))

Start(kind) ==
    CASE kind \in {"iset", "pset"} -> <<{}, {}>>
      [] kind = "lru" -> <<{}, <<>>>>
      [] kind = "vset" -> {}
      [] kind = "trav" -> <<{}, {}>>
      [] OTHER -> 0

Put(s, w, v) == [s EXCEPT ![w] = v]

(* ----------------------------------------------------------- index sets *)
ISetNext(s, n, a, l) ==
    LET w == a[1] IN
    CASE n = "set" -> Put(s, w, IF a[3] = 1 THEN s[w] \cup {a[2]} ELSE s[w] \ {a[2]})
      [] n = "union" -> Put(s, w, s[1] \cup s[2])
      [] n = "assign" -> Put(s, w, s[Other(w)])
      [] OTHER -> s
ISetOK(s, n, a, l) ==
    LET w == a[1] IN
    CASE n = "get" -> a[3] = Bit(a[2] \in s[w])
      [] n = "union" -> a[2] = Bit(~ (s[Other(w)] \subseteq s[w]))
      [] n = "emp" -> a[2] = Bit(s[w] = {})
      [] n = "iter" -> Range(l) = s[w] /\ Distinct(l)
      [] OTHER -> TRUE

(* -------------------------------------------------------- register sets *)
ClassOf(i) == i \div 64
PSetNext(s, n, a, l) ==
    LET w == a[1] IN
    CASE n = "add" -> Put(s, w, s[w] \cup {a[2]})
      [] n = "rem" -> Put(s, w, s[w] \ {a[2]})
      [] n = "uni" -> Put(s, w, s[1] \cup s[2])
      [] n = "int" -> Put(s, w, s[1] \cap s[2])
      [] n = "inv" -> Put(s, w, (0..255) \ s[w])
      [] n = "upto" -> Put(s, w, s[w] \cup 0..(a[2] - 1))
      [] n = "from" -> Put(s, w, Range(l))
      [] OTHER -> s
PSetOK(s, n, a, l) ==
    CASE n = "has" -> a[3] = Bit(a[2] \in s[a[1]])
      [] n = "emp" -> a[3] = Bit(\A i \in s[a[1]] : ClassOf(i) # a[2])
      [] n = "len" -> a[2] = Cardinality(s[a[1]])
      [] n = "max" -> a[2] = IF s[a[1]] = {} THEN -1 ELSE Max(s[a[1]])
      [] n = "eq" -> a[1] = Bit(s[1] = s[2])
      [] n = "iter" -> Range(l) = s[a[1]] /\ Distinct(l)
      [] OTHER -> TRUE

(* ------------------------------------------------------- recency orders *)
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
LruNext(s, n, a, l) ==
    CASE n = "new" -> <<Range(l), <<>>>>
      [] n = "poke" -> <<s[1], Append(Without(s[2], a[1]), a[1])>>
      [] OTHER -> s
(* A register that was never used is older than every register that was.   *)
Age(s, x) == IF x \in Range(s[2]) THEN CHOOSE i \in 1..Len(s[2]) : s[2][i] = x ELSE 0
LruOK(s, n, a, l) ==
    CASE n = "poke" -> a[1] \in s[1]
      [] n = "last" ->
           LET cand == Range(l) \cap s[1] IN
           /\ a[2] = 1
           /\ IF cand = {} THEN a[1] = -1
              ELSE a[1] \in cand /\ \A y \in cand : Age(s, a[1]) <= Age(s, y)
      [] OTHER -> TRUE

(* -------------------------------------------------- virtual-register set *)
VSetNext(s, n, a, l) ==
    CASE n = "ins" -> s \cup {a[1]}
      [] n = "rem" -> s \ {a[1]}
      [] OTHER -> s
VSetOK(s, n, a, l) ==
    CASE n = "emp" -> a[1] = Bit(s = {})
      [] n = "iter" -> a[1] = 1 /\ Range(l) = s /\ Distinct(l)
      [] OTHER -> TRUE

(* ------------------------------------------------------ traversal order *)
TravNext(s, n, a, l) ==
    CASE n = "pref" -> <<Range(l), s[2]>>
      [] n = "nonpref" -> <<s[1], Range(l)>>
      [] OTHER -> s
TravOK(s, n, a, l) ==
    n = "trav" =>
      LET fixed == a[1]  hint == a[2]
          Below(x) == a[3] = -1 \/ x < a[3]
          first == IF hint # -1 /\ Below(hint) THEN <<hint>> ELSE <<>>
          P == {x \in s[1] : Below(x) /\ x # hint}
          N == {x \in s[2] : Below(x) /\ x # hint}
          h == Len(first)  p == Cardinality(P)
      IN IF fixed # -1 THEN l = <<fixed>>
         ELSE /\ Len(l) = h + p + Cardinality(N)
              /\ SubSeq(l, 1, h) = first
              /\ Range(SubSeq(l, h + 1, h + p)) = P
              /\ Range(SubSeq(l, h + p + 1, Len(l))) = N

(* --------------------------------------------------------- requirements *)
(* Locations: 0..39 ordinary registers, 40..50 registers that are stack    *)
(* slots, 51 and up spill slots.                                           *)
Locations == 0..60
Denotes(kind, x) ==
    CASE kind = 0 -> Locations
      [] kind = 1 -> {y \in Locations : y < 40}
      [] kind = 2 -> {x}
      [] kind = 3 -> {y \in Locations : y < 40 /\ y < x}
      [] kind = 4 -> {y \in Locations : y >= 40}
      [] kind = 5 -> {x}
      [] OTHER -> {}
ReqOK(a) ==
    /\ Denotes(a[5], a[6]) = Denotes(a[1], a[2]) \cap Denotes(a[3], a[4])
    /\ a[7] = Bit(\A x \in Denotes(a[1], a[2]) : x < 40)
    /\ a[8] = Bit(\A x \in Denotes(a[1], a[2]) : x >= 40)

(* -------------------------------------------------------------- machine *)
NextState(kind, s, o) ==
    CASE kind = "iset" -> ISetNext(s, o[1], o[2], o[3])
      [] kind = "pset" -> PSetNext(s, o[1], o[2], o[3])
      [] kind = "lru" -> LruNext(s, o[1], o[2], o[3])
      [] kind = "vset" -> VSetNext(s, o[1], o[2], o[3])
      [] kind = "trav" -> TravNext(s, o[1], o[2], o[3])
      [] OTHER -> s
Right(kind, s, o) ==
    CASE kind = "iset" -> ISetOK(s, o[1], o[2], o[3])
      [] kind = "pset" -> PSetOK(s, o[1], o[2], o[3])
      [] kind = "lru" -> LruOK(s, o[1], o[2], o[3])
      [] kind = "vset" -> VSetOK(s, o[1], o[2], o[3])
      [] kind = "trav" -> TravOK(s, o[1], o[2], o[3])
      [] kind = "reqm" -> ReqOK(o[2])

Init == ci \in 1..Len(Cases) /\ k = 1 /\ st = Start(C.kind) /\ err = ""

Panicked ==
    /\ err = "" /\ C.out # "ok" /\ k = Len(C.ops) + 1
    /\ Report("panic", C.msg)
    /\ err' = "panic"
    /\ UNCHANGED <<ci, k, st>>

Step ==
    /\ err = "" /\ k <= Len(C.ops)
    /\ LET o == C.ops[k] IN
       IF Right(C.kind, st, o)
       THEN st' = NextState(C.kind, st, o) /\ err' = ""
       ELSE Report("answer", <<k, o[1]>>) /\ err' = "answer" /\ st' = st
    /\ k' = k + 1 /\ ci' = ci

Next == Panicked \/ Step
Spec == Init /\ [][Next]_vars
Correct == err = ""
Sound == C.kind \in {"pset"} => st[1] \subseteq 0..255 /\ st[2] \subseteq 0..255
=============================================================================
