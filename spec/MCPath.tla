------------------------------- MODULE MCPath -------------------------------
(* Exhaustive check of the path algebra over look-alike names.  The state is  *)
(* a cursor moved by relative steps: ..  .  name; the invariants tie the      *)
(* algebra's operators to each other in every reachable cursor position and   *)
(* for every other path of the universe.                                     *)
EXTENDS NxtPath, Json
CONSTANTS Names, MaxDepth, MaxSteps
VARIABLES start, cur, steps
vars == <<start, cur, steps>>
Init == start \in Paths(Names, MaxDepth) /\ cur = start /\ steps = <<>>
Step(s) == /\ Len(steps) < MaxSteps
           /\ Len(StepPath(cur, s)) <= MaxDepth
           /\ cur' = StepPath(cur, s)
           /\ steps' = Append(steps, s)
           /\ UNCHANGED start
Next == \E s \in Names \cup {"..", "."} : Step(s)
Spec == Init /\ [][Next]_vars

\* expanding all at once is stepping one by one
ExpandIsStepping == ExpandSteps(start, steps) = cur
AncestorLaws ==
  LET A == Ancestors(cur) IN
  /\ \A i \in 1..Len(A) : IsAncestor(cur, A[i]) /\ Len(A[i]) = Len(cur) - i
  /\ Len(cur) > 1 => A[1] = ParentOf(cur) /\ A[Len(A)] = RootOf(cur)
  /\ {A[i] : i \in 1..Len(A)} \cup {World} = {p \in Paths(Names, MaxDepth) : IsAncestor(cur, p)} \cup {World}
TextInjective == \A p \in Paths(Names, MaxDepth) : Text(p) = Text(cur) => p = cur
ReplaceLaws ==
  \A new \in Paths(Names, 2) : \A n \in 0..Len(cur) :
     LET r == ReplaceAncestor(cur, Prefix(cur, n), new) IN
       /\ IsPrefixOf(new, r)
       /\ ReplaceAncestor(r, new, Prefix(cur, n)) = cur
TrimLaws == \A d \in 0..(MaxDepth + 1) : /\ Depth(Trim(cur, d)) = (IF d < Len(cur) THEN d ELSE Len(cur))
                                         /\ IsPrefixOf(Trim(cur, d), cur)
Export == PrintT("@@SCN" \o ToJson([start |-> start, steps |-> steps]))
=============================================================================
