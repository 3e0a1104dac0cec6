------------------------------- MODULE MCNames ------------------------------
(* Every short history of edits of the attributes of one node, whose names    *)
(* resemble each other; a stronger layer holds some of its own there.         *)
EXTENDS NxtNames, Json
CONSTANTS MaxSteps
VARIABLES attrs, top, init, h
vars == <<attrs, top, init, h>>
Pool == {"a", "ab", "a1"}
Asked == {"a", "a1", "ab", "a b", "9", "_name", ""}
Reserved == {"_name", "__doc__"}
Made(n) == [v |-> "v-" \o n, t |-> "t-" \o n, c |-> "c-" \o n]
Init == /\ \E S \in SUBSET Pool : attrs = [n \in S |-> Made(n)]
        /\ top \in {{}, {"a2"}} /\ init = <<attrs, top>> /\ h = <<>>
Blank == [do |-> "", a |-> "", b |-> "", v |-> Absent, t |-> Absent, c |-> Absent]
Do(o, next) == attrs' = next /\ h' = Append(h, o) /\ UNCHANGED <<top, init>>
Free(n) == MakeUp(n, DOMAIN attrs \cup Reserved)
Parts == {[v |-> "1", t |-> Absent, c |-> Absent], [v |-> Absent, t |-> Absent, c |-> "c"], [v |-> "1", t |-> "t", c |-> "c"]}
Op(do, a, b, x) == [Blank EXCEPT !.do = do, !.a = a, !.b = b, !.v = x.v, !.t = x.t, !.c = x.c]
Next == /\ Len(h) < MaxSteps
        /\ \/ \E n \in Asked, x \in Parts : Do(Op("add", n, "", x), AddA(attrs, Free(n), x))
           \/ \E a \in DOMAIN attrs \cup {"q"}, n \in Asked : a # n /\ Do(Op("ren", a, n, NoAttr), RenA(attrs, a, Free(n)))
           \/ \E a \in DOMAIN attrs \cup {"q"} : Do(Op("del", a, "", NoAttr), DelA(attrs, a))
           \/ \E a \in DOMAIN attrs \cup {"q"}, x \in Parts : Do(Op("set", a, "", x), SetA(attrs, a, x))
Spec == Init /\ [][Next]_vars
Did == h'[Len(h')]
Names == /\ \A n \in DOMAIN attrs : LegalName(n) /\ n \notin Reserved
         /\ \A n \in Asked : GoodName(n, Free(n), DOMAIN attrs, Reserved) = {}
Kept(S) == \A n \in S : n \in DOMAIN attrs' /\ attrs'[n] = attrs[n]
Exact == [][CASE Did.do = "add" -> Kept(DOMAIN attrs) /\ Cardinality(DOMAIN attrs') = Cardinality(DOMAIN attrs) + 1
              [] Did.do = "del" -> Kept(DOMAIN attrs \ {Did.a}) /\ Did.a \notin DOMAIN attrs'
              [] Did.do = "set" -> Kept(DOMAIN attrs \ {Did.a})
              [] Did.do = "ren" -> /\ Kept(DOMAIN attrs \ {Did.a})
                                   /\ Did.a \in DOMAIN attrs => \E n \in DOMAIN attrs' \ DOMAIN attrs : attrs'[n] = attrs[Did.a]]_vars
Show == IF Len(h) = MaxSteps THEN PrintT("@@SCN" \o ToJson([own |-> DOMAIN init[1], top |-> init[2], edits |-> h])) ELSE TRUE
=============================================================================
