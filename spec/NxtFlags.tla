------------------------------ MODULE NxtFlags ------------------------------
(* Which layers contribute: own mute/solo flags, and overrides given by the   *)
(* layers that reference them.                                                *)
(* Layers are numbered strong to weak; up[l] is the layer that references l,  *)
(* 0 for the top.  A setting is "none", "true", "false" or a text.            *)
(* st: [own  : layer -> [mute, solo, alias, color, lock],                     *)
(*      over : layer -> target layer -> [mute, solo, alias, color, lock]]     *)
EXTENDS Naturals, Sequences, FiniteSets
None == "none"
Kinds == {"mute", "solo", "alias", "color", "lock"}
NoSettings == [k \in Kinds |-> None]

RECURSIVE Chain(_, _)      \* the layers above l, nearest first
Chain(up, l) == IF up[l] = 0 THEN <<>> ELSE <<up[l]>> \o Chain(up, up[l])
TopOf(up, l) == LET c == Chain(up, l) IN IF c = <<>> THEN 0 ELSE c[Len(c)]

\* the outermost override, "none" if there is none
OverOf(up, st, l, k) ==
  LET c == Chain(up, l)
      S == {i \in 1..Len(c) : st.over[c[i]][l][k] /= None} IN
    IF S = {} THEN None ELSE st.over[c[CHOOSE i \in S : \A j \in S : j <= i]][l][k]
Effective(up, st, l, k) == LET o == OverOf(up, st, l, k) IN IF o /= None THEN o ELSE st.own[l][k]

\* what the composite built from layer `from` downwards is made of
Active(up, st, from) ==
  LET R == from..Len(up)
      solo == \E l \in R : Effective(up, st, l, "solo") = "true" IN
   {l \in R : Effective(up, st, l, "mute") /= "true" /\ (solo => Effective(up, st, l, "solo") = "true")}

SetOwn(st, l, k, v) == [st EXCEPT !.own[l][k] = v]
SetOver(st, l, t, k, v) == [st EXCEPT !.over[l][t][k] = v]
\* alias, color and lock overrides are kept by the outermost layer
SetOverOn(up, st, t, k, v) == IF TopOf(up, t) = 0 THEN st ELSE SetOver(st, TopOf(up, t), t, k, v)
Do(up, st, a) ==
  CASE a.do = "own"  -> SetOwn(st, a.l, a.k, a.v)
    [] a.do = "over" -> SetOver(st, a.l, a.t, a.k, a.v)
    [] a.do = "top"  -> SetOverOn(up, st, a.t, a.k, a.v)
    [] a.do = "reload" -> st
=============================================================================
