---------------------------- MODULE HashBuckets -----------------------------
(***************************************************************************)
(* The hash set behind states: a vector of buckets, each a sorted vector   *)
(* without duplicates, that grows when it holds more elements than buckets *)
(* and shrinks again.  Two sets A and B evolve by insertions, erasures and *)
(* copies under one of several hash functions (good, constant, clustered). *)
(*                                                                         *)
(* Checked: each bucket array represents exactly the abstract set, and is  *)
(* a function of the contents alone, whatever the history: so equality,    *)
(* hash and order defined on the buckets depend on the contents only.      *)
(* TLC also enumerates all histories up to a length and prints what a real *)
(* set has to answer after each operation.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Depth == atoi(IOEnv.VERIF_DEPTH)
Univ == 0..(atoi(IOEnv.VERIF_UNIV) - 1)
Starts == JsonDeserialize(IOEnv.VERIF_STARTS)     \* sequence of insertion sequences
Printing == IOEnv.VERIF_PRINT = "1"

VARIABLES mode, A, B, absA, absB, hist, obs
vars == <<mode, A, B, absA, absB, hist, obs>>

H(m, x) == CASE m = 1 -> 0 [] m = 2 -> x % 3 [] m = 3 -> (x * 7919) % 1021 [] OTHER -> x

Empty == [n |-> 1, at |-> [i \in {0} |-> {}]]
Elems(s) == UNION {s.at[i] : i \in DOMAIN s.at}
Place(m, n, X) == [n |-> n, at |-> [i \in 0..(n - 1) |-> {x \in X : H(m, x) % n = i}]]
Bucket(m, s, x) == H(m, x) % s.n
Max2(a, b) == IF a > b THEN a ELSE b

(* the algorithm *)
Insert(m, s, x) ==
  LET b == Bucket(m, s, x)
  IN IF x \in s.at[b] THEN s
     ELSE LET s2 == [s EXCEPT !.at[b] = @ \cup {x}]
          IN IF Cardinality(Elems(s2)) > s2.n THEN Place(m, 2 * s2.n + 1, Elems(s2)) ELSE s2
Lower(s) == Max2(1, (s.n - 1) \div 2)
Erase(m, s, x) ==
  LET b == Bucket(m, s, x)
  IN IF x \notin s.at[b] THEN s
     ELSE LET s2 == [s EXCEPT !.at[b] = @ \ {x}]
          IN IF Cardinality(Elems(s2)) <= Lower(s2) /\ Lower(s2) # s2.n
             THEN Place(m, Lower(s2), Elems(s2)) ELSE s2

RECURSIVE Fill(_, _, _)
Fill(m, s, xs) == IF xs = <<>> THEN s ELSE Fill(m, Insert(m, s, Head(xs)), Tail(xs))

Init == /\ mode \in 0..3
        /\ \E k \in DOMAIN Starts :
             /\ A = Fill(mode, Empty, Starts[k]) /\ absA = Range(Starts[k])
             /\ hist = <<[op |-> "start", x |-> k]>>
        /\ B = Empty /\ absB = {} /\ obs = <<>>

Result(changed, X, Y) == [ch |-> changed, l |-> SetToSortSeq(X, LAMBDA a, b : a < b), eq |-> X = Y]
Log(op, x, changed) ==
  /\ hist' = IF Depth = 0 THEN hist ELSE Append(hist, [op |-> op, x |-> x])
  /\ obs' = IF Depth = 0 THEN obs ELSE Append(obs, Result(changed, absA', absB'))
  /\ (Printing /\ Len(hist) = Depth =>
        PrintT("BEH " \o ToJson([mode |-> mode, hist |-> hist', obs |-> obs'])))

DoInsert(x) == /\ A' = Insert(mode, A, x) /\ absA' = absA \cup {x} /\ UNCHANGED <<mode, B, absB>>
               /\ Log("insert", x, x \notin absA)
DoErase(x) == /\ A' = Erase(mode, A, x) /\ absA' = absA \ {x} /\ UNCHANGED <<mode, B, absB>>
              /\ Log("erase", x, x \in absA)
DoCopy == /\ B' = A /\ absB' = absA /\ UNCHANGED <<mode, A, absA>> /\ Log("copy", 0, TRUE)
DoSwap == /\ B' = A /\ A' = B /\ absB' = absA /\ absA' = absB /\ UNCHANGED mode /\ Log("swap", 0, TRUE)
Next == /\ Depth = 0 \/ Len(hist) <= Depth
        /\ \/ \E x \in Univ : DoInsert(x) \/ DoErase(x)
           \/ DoCopy \/ DoSwap
Spec == Init /\ [][Next]_vars

RECURSIVE Canon(_, _)
Canon(k, n) == IF k >= n THEN k ELSE Canon(2 * k + 1, n)
Represents(s, X) ==
  /\ Elems(s) = X
  /\ s = Place(mode, Canon(1, Cardinality(X)), X)
Refines == Represents(A, absA) /\ Represents(B, absB)
EqualIffSame == (A = B) <=> (absA = absB)
=============================================================================
