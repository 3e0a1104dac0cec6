----------------------------- MODULE TraceFlags -----------------------------
(* Histories of flags and overrides on real stages, against NxtFlags.         *)
EXTENDS NxtFlags, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, st
vars == <<i, l, st>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Up(o) == Cases[i].up
N(o) == Len(Up(o))
OverFn(o) == [x \in 1..N(o) |-> [t \in 1..N(o) |-> o.over[x][t]]]
StateOf(o) == [own |-> [x \in 1..N(o) |-> o.own[x]], over |-> OverFn(o)]
Obs(o, s) ==
  Chk("OwnSettings", \A x \in 1..N(o) : o.own[x] = s.own[x])
  \cup Chk("Overrides", OverFn(o) = s.over)
  \cup UNION {Chk("Effective_" \o k, \A x \in 1..N(o) : o.eff[x][k] = Effective(Up(o), s, x, k)) : k \in Kinds}
  \cup Chk("ActiveLayers", \A f \in 1..N(o) : {o.active[f][j] : j \in 1..Len(o.active[f])} = Active(Up(o), s, f))
  \cup Chk("CompositeContent", \A f \in 1..N(o) : {o.content[f][j] : j \in 1..Len(o.content[f])} = Active(Up(o), s, f))
  \cup Chk("StrongestActiveWins", \A f \in 1..N(o) :
         LET A == Active(Up(o), s, f) IN
           o.winner[f] = IF A = {} THEN 0 ELSE CHOOSE x \in A : \A y \in A : x <= y)
Init == i \in 1..Len(Cases) /\ l = 0 /\ st = <<>>
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ l' = l + 1 /\ i' = i
        /\ LET o == Cases[i].ops[l + 1] IN
           IF o.act.do = "load"
           THEN st' = [own |-> [x \in 1..N(o) |-> o.act.own[x]], over |-> [x \in 1..N(o) |-> [t \in 1..N(o) |-> o.act.over[x][t]]]]
                /\ Report(IF o.crash /= "" THEN {"NoError"} ELSE Obs(o, st'))
           ELSE st' = Do(Up(o), st, o.act)
                /\ Report(IF o.crash /= "" THEN {"NoError"} ELSE Obs(o, st'))
Spec == Init /\ [][Next]_vars
=============================================================================
