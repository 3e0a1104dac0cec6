------------------------------- MODULE MCPure -------------------------------
EXTENDS NxtPure, TLC, Json
CONSTANT MaxSteps
VARIABLES st, h, n
vars == <<st, h, n>>
See(saved, idx) == <<"view", SubSeq(saved, idx + 1, Len(saved))>>
Init == st = Begin(<<"a", "b">>) /\ h = <<>> /\ n = 0
Reads == {"read", "readall"}
Runs == {"start", "list", "custom", "setup"}
Next == /\ Len(h) < MaxSteps /\ n' = n + 1
        /\ \/ \E i \in {0, 1} : Len(st.held) < 3 /\ st' = Build(st, i) /\ h' = Append(h, [do |-> "build", k |-> i, how |-> ""])
           \/ \E k \in 1..Len(st.held), r \in Reads : st' = Read(st) /\ h' = Append(h, [do |-> "read", k |-> k, how |-> r])
           \/ \E k \in 1..Len(st.held), r \in Runs : Len(st.held) < 4 /\ st' = Run(st, k, <<"run", <<ToString(n)>>>>) /\ h' = Append(h, [do |-> "run", k |-> k, how |-> r])
           \/ \E k \in 1..Len(st.held) : st' = Drop(st, k) /\ h' = Append(h, [do |-> "drop", k |-> k, how |-> ""])
           \/ \E k \in 1..2 : st' = Edit(st, k, "e" \o ToString(n)) /\ h' = Append(h, [do |-> "edit", k |-> k, how |-> ""])
Spec == Init /\ [][Next]_vars
\* what is not of a run shows what building anew would
Same == \A k \in 1..Len(st.held) : ~st.held[k].rt => st.held[k].shows = See(st.saved, st.held[k].idx)
\* only edits change what is saved
Kept == [][st'.saved # st.saved => h'[Len(h')].do = "edit"]_vars
Others == [][\A k \in 1..Len(st.held) : h'[Len(h')].do \in {"build", "read", "run"} /\ ~st.held[k].rt => st'.held[k] = st.held[k]]_vars
Show == IF Len(h) = MaxSteps /\ h[1].do = "build" THEN PrintT("@@SCN" \o ToJson(h)) ELSE TRUE
=============================================================================
