---------------------------- MODULE BuilderDefs ----------------------------
(***************************************************************************)
(* The Python problem builder: what a builder holds after each call, and    *)
(* how its text reads as PDDL.                                              *)
(*                                                                         *)
(* A builder is [name, domain, objs, init, goal]; objs a sequence of [n,t]  *)
(* ("" for an untyped one), init a sequence of propositions <<name, args>>  *)
(* and goal an expression: [k "atom", p, a], [k "and"/"or", fs], [k "not",  *)
(* f], [k "forall"/"exists", v, t, f], [k "when", c, f].                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

True == [k |-> "and", fs |-> <<>>]
New(name, domain) == [name |-> name, domain |-> domain, objs |-> <<>>, init |-> <<>>, goal |-> True]
AddObject(b, n, t) == [b EXCEPT !.objs = Append(@, [n |-> n, t |-> t])]
AddInit(b, qs) == [b EXCEPT !.init = @ \o qs]
SetGoal(b, g) == [b EXCEPT !.goal = g]

-----------------------------------------------------------------------------
(* Text: a sequence of tokens read as one nested list                       *)
W(w) == [w |-> w]
L(l) == [l |-> l]
Bad == W("unbalanced")
ReadTok(st, t) ==
  IF st = <<>> THEN st            \* closed too often
  ELSE CASE t = "(" -> Append(st, <<>>)
         [] t = ")" -> IF Len(st) = 1 THEN <<>>
                       ELSE LET x == Last(st)
                                r == Front(st)
                            IN Append(Front(r), Append(Last(r), L(x)))
         [] OTHER -> Append(Front(st), Append(Last(st), W(t)))
Read(toks) ==
  LET st == FoldLeft(ReadTok, << <<>> >>, toks)
  IN IF Len(st) = 1 /\ Len(st[1]) = 1 THEN st[1][1] ELSE Bad

IsWord(x) == "w" \in DOMAIN x
IsList(x) == "l" \in DOMAIN x
Words(l) == [i \in DOMAIN l |-> l[i].w]

RECURSIVE Typed(_, _)
(* names - type names - type ... : the names of each type, untyped at the end *)
Typed(ws, names) ==
  IF ws = <<>> THEN [i \in DOMAIN names |-> [n |-> names[i], t |-> "object"]]
  ELSE IF ws[1] = "-" /\ Len(ws) > 1
  THEN [i \in DOMAIN names |-> [n |-> names[i], t |-> ws[2]]] \o Typed(SubSeq(ws, 3, Len(ws)), <<>>)
  ELSE Typed(Tail(ws), Append(names, ws[1]))
TypeOf(t) == IF t = "" THEN "object" ELSE t

RECURSIVE Reads(_, _)
(* the list x reads as the expression f *)
Reads(x, f) ==
  IF ~IsList(x) \/ x.l = <<>> THEN FALSE
  ELSE LET n == Len(x.l)
           key == IF IsWord(x.l[1]) THEN x.l[1].w ELSE ""
       IN CASE f.k = "atom" -> (\A i \in DOMAIN x.l : IsWord(x.l[i])) /\ Words(x.l) = <<f.p>> \o f.a
            [] f.k \in {"and", "or"} -> /\ key = f.k /\ n = Len(f.fs) + 1
                                        /\ \A i \in DOMAIN f.fs : Reads(x.l[i + 1], f.fs[i])
            [] f.k = "not" -> key = "not" /\ n = 2 /\ Reads(x.l[2], f.f)
            [] f.k = "when" -> key = "when" /\ n = 3 /\ Reads(x.l[2], f.c) /\ Reads(x.l[3], f.f)
            [] OTHER -> /\ key = f.k /\ n = 3 /\ IsList(x.l[2]) /\ \A i \in DOMAIN x.l[2].l : IsWord(x.l[2].l[i])
                        /\ Typed(Words(x.l[2].l), <<>>) = <<[n |-> "?" \o f.v, t |-> TypeOf(f.t)]>>
                        /\ Reads(x.l[3], f.f)

Flat(x) == IsList(x) /\ \A i \in DOMAIN x.l : IsWord(x.l[i])
(* the text is a problem with exactly what the builder holds *)
Writes(toks, b) ==
  LET x == Read(toks)
      sec(key) == {i \in 3..Len(x.l) : IsList(x.l[i]) /\ x.l[i].l # <<>> /\ x.l[i].l[1] = W(key)}
      the(key) == x.l[CHOOSE i \in sec(key) : TRUE].l
  IN /\ IsList(x) /\ Len(x.l) = 6
     /\ x.l[1] = W("define") /\ x.l[2] = L(<<W("problem"), W(b.name)>>)
     /\ \A key \in {":domain", ":objects", ":init", ":goal"} : Cardinality(sec(key)) = 1
     /\ the(":domain") = <<W(":domain"), W(b.domain)>>
     /\ Flat(L(the(":objects")))
     /\ Typed(Tail(Words(the(":objects"))), <<>>) =
          [i \in DOMAIN b.objs |-> [n |-> b.objs[i].n, t |-> TypeOf(b.objs[i].t)]]
     /\ \A i \in DOMAIN Tail(the(":init")) : Flat(Tail(the(":init"))[i])
     /\ {Words(y.l) : y \in Range(Tail(the(":init")))} = Range(b.init)
     /\ Len(the(":goal")) = 2 /\ Reads(the(":goal")[2], b.goal)
=============================================================================
