------------------------------ MODULE Cursors -------------------------------
(***************************************************************************)
(* The combination generator and its cursors.  A generator over option     *)
(* lists has the tuples of their Cartesian product, last option fastest;   *)
(* a cursor is nothing but a position, forward or reverse, and shows the   *)
(* combination at its position whenever that is inside the range.          *)
(*                                                                         *)
(* TLC enumerates every sequence of cursor moves up to a length (with a    *)
(* second cursor that moves are saved to and swapped with) and prints what *)
(* a real cursor has to show after each move.                              *)
(***************************************************************************)
EXTENDS Pddl, Json, IOUtils

Shapes == JsonDeserialize(IOEnv.VERIF_SHAPES)   \* sequence of option lists
Depth == atoi(IOEnv.VERIF_DEPTH)

Moves == {"++", "--", "p++", "p--", "swap", "+2", "-2", "c3", "m1", "n2", "c-2", "save"}

VARIABLES shape, rev, hist, it, other, obs
vars == <<shape, rev, hist, it, other, obs>>

Prods == [i \in DOMAIN Shapes |-> TLCEval(TuplesOf(Shapes[i]))]
Prod == Prods[shape]
N == Len(Prod)
(* the combination a cursor at position p shows *)
Show(p) == IF p < 0 \/ p >= N THEN <<>> ELSE IF rev THEN Prod[N - p] ELSE Prod[p + 1]

Rel(p, o) == IF p < o THEN <<"<", "<=", "#">> ELSE IF p = o THEN <<"<=", "=", ">=">> ELSE <<"#", ">=", ">">>
Obs(p, o) == [pos |-> p, show |-> Show(p), again |-> Show(p), prev |-> Show(p - 1), next |-> Show(p + 1),
              rel |-> Rel(p, o), diff |-> p - o]

Moved(m, p, o) ==
  CASE m = "++" -> <<p + 1, o>>
    [] m = "--" -> <<p - 1, o>>
    [] m = "p++" -> <<p + 1, p>>
    [] m = "p--" -> <<p - 1, p>>
    [] m = "swap" -> <<o, p>>
    [] m = "save" -> <<p, p>>
    [] m = "+2" -> <<p + 2, o>>
    [] m = "-2" -> <<p - 2, o>>
    [] m = "c3" -> <<p + 3, o>>
    [] m = "m1" -> <<p - 1, o>>
    [] m = "c-2" -> <<p - 2, o>>
    [] m = "n2" -> <<p + 2, o>>

Init == /\ shape \in DOMAIN Shapes /\ rev \in BOOLEAN
        /\ \E s \in {"begin", "end"} :
             /\ hist = <<s>>
             /\ it = IF s = "begin" THEN 0 ELSE N
             /\ other = it
             /\ obs = <<Obs(it, it)>>

Next == /\ Len(hist) <= Depth
        /\ \E m \in Moves :
             LET x == Moved(m, it, other) IN
             /\ it' = x[1] /\ other' = x[2]
             /\ x[1] >= -3 /\ x[1] <= N + 3
             /\ hist' = Append(hist, m) /\ obs' = Append(obs, Obs(x[1], x[2]))
             /\ (Len(hist) = Depth =>
                   PrintT("BEH " \o ToJson([shape |-> shape, rev |-> rev, hist |-> hist', obs |-> obs'])))
        /\ UNCHANGED <<shape, rev>>
Spec == Init /\ [][Next]_vars

(* the product has as many tuples as the options allow, all different, each *)
(* differing from the next in a suffix that starts at the option that moves *)
ASSUME \A i \in DOMAIN Shapes :
  LET P == Prods[i]
      Size == FoldLeft(LAMBDA acc, o : acc * Len(o), 1, Shapes[i])
  IN /\ Len(P) = Size
     /\ \A j, k \in DOMAIN P : j # k => P[j] # P[k]
     /\ \A j \in 1..(Len(P) - 1) :
          \E c \in DOMAIN Shapes[i] :
            /\ \A d \in 1..(c - 1) : P[j][d] = P[j + 1][d]
            /\ \E n \in 1..(Len(Shapes[i][c]) - 1) : P[j][c] = Shapes[i][c][n] /\ P[j + 1][c] = Shapes[i][c][n + 1]
            /\ \A d \in (c + 1)..Len(Shapes[i]) :
                 P[j][d] = Shapes[i][d][Len(Shapes[i][d])] /\ P[j + 1][d] = Shapes[i][d][1]
(* cursors agree on order and distance *)
Consistent == \A k \in DOMAIN obs : /\ ("<" \in Range(obs[k].rel)) = (obs[k].diff < 0)
                                    /\ ("=" \in Range(obs[k].rel)) = (obs[k].diff = 0)
=============================================================================
