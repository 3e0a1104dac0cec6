------------------------------- MODULE MCFlags -------------------------------
(* Every short history of setting flags and overrides.  Reference tree:       *)
(* 1 references 2 and 4, 2 references 3.                                      *)
EXTENDS NxtFlags, TLC, Json
CONSTANT MaxSteps
VARIABLES st, h
vars == <<st, h>>
Up == <<0, 1, 2, 1>>
N == Len(Up)
Own0 == [mute |-> "false", solo |-> "false", alias |-> "own", color |-> "#000001", lock |-> "false"]
Init == /\ h = <<>>
        /\ st = [own |-> [l \in 1..N |-> Own0], over |-> [l \in 1..N |-> [t \in 1..N |-> NoSettings]]]
Below(l) == {t \in 1..N : \E i \in 1..Len(Chain(Up, t)) : Chain(Up, t)[i] = l}
Acts == [do : {"own"}, l : 1..N, t : {0}, k : {"mute", "solo"}, v : {"true", "false"}]
   \cup {a \in [do : {"over"}, l : 1..N, t : 1..N, k : {"mute", "solo"}, v : {"true", "false"}] : a.t \in Below(a.l)}
   \cup [do : {"top"}, l : {0}, t : 2..N, k : {"alias"}, v : {"nick", None}]
   \cup [do : {"top"}, l : {0}, t : {3}, k : {"color"}, v : {"#00ff00", None}]
   \cup [do : {"top"}, l : {0}, t : {3}, k : {"lock"}, v : {"true", None}]
Next == /\ Len(h) < MaxSteps
        /\ \E a \in Acts : st' = Do(Up, st, a) /\ h' = Append(h, a)
Spec == Init /\ [][Next]_vars
Sound ==
  \A f \in 1..N :
    LET A == Active(Up, st, f) IN
    \* weaker layers only; a muted layer never; with a solo only soloed ones
    /\ \A l \in A : l >= f /\ Effective(Up, st, l, "mute") /= "true"
    /\ \A l \in 1..N : (l >= f /\ l \notin A) =>
          \/ Effective(Up, st, l, "mute") = "true"
          \/ \E m \in f..N : m /= l /\ Effective(Up, st, m, "solo") = "true"
\* an action changes at most what it names
Frame == [][ LET a == h'[Len(h')] IN
   /\ \A l \in 1..N : \A k \in Kinds : st'.own[l][k] /= st.own[l][k] => a.do = "own" /\ a.l = l /\ a.k = k
   /\ \A l, t \in 1..N : \A k \in Kinds : st'.over[l][t][k] /= st.over[l][t][k] =>
         a.t = t /\ a.k = k /\ ((a.do = "over" /\ a.l = l) \/ (a.do = "top" /\ l = 1)) ]_vars
Show == IF Len(h) = MaxSteps THEN PrintT("@@SCN" \o ToJson([up |-> Up, acts |-> h])) ELSE TRUE
=============================================================================
