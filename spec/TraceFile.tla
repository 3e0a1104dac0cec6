----------------------------- MODULE TraceFile ------------------------------
(* Recorded loads, edits and saves against NxtFile.                           *)
EXTENDS NxtFile, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, file, layer
vars == <<i, l, file, layer>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Fn(s) == [k \in {s[j].k : j \in 1..Len(s)} |-> s[CHOOSE j \in 1..Len(s) : s[j].k = k].v]
AttrFn(s) == [n \in {s[j].n : j \in 1..Len(s)} |-> LET a == s[CHOOSE j \in 1..Len(s) : s[j].n = n] IN [v |-> a.v, t |-> a.t, c |-> a.c]]
ToC(o) == [top |-> Fn(o.top), meta |-> Fn(o.meta),
           nodes |-> [p \in {o.nodes[j].p : j \in 1..Len(o.nodes)} |->
              LET n == o.nodes[CHOOSE j \in 1..Len(o.nodes) : o.nodes[j].p = p] IN
                [f |-> Fn(n.f), co |-> n.co, attrs |-> AttrFn(n.attrs)]]]
KidsOf(o) == [p \in {o.nodes[j].p : j \in 1..Len(o.nodes)} |->
               LET n == o.nodes[CHOOSE j \in 1..Len(o.nodes) : o.nodes[j].p = p] IN Elems(n.kids)]
Init == i \in 1..Len(Cases) /\ l = 0 /\ file = <<>> /\ layer = <<>>
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ l' = l + 1 /\ i' = i
        /\ LET o == Cases[i].ops[l + 1] IN
           CASE o.op = "write" -> file' = <<ToC(o.c), KidsOf(o.c)>> /\ UNCHANGED layer
             [] o.op = "load" -> /\ UNCHANGED file /\ layer' = (IF o.crash # "" THEN <<>> ELSE ToC(o.c))
                                 /\ Report(IF o.crash # "" THEN {"NoError"} ELSE Load(file[1], layer', o.name, file[2]))
             \* loading again what was saved gives exactly what was saved
             [] o.op = "reload" -> /\ UNCHANGED file /\ layer' = (IF o.crash # "" THEN <<>> ELSE ToC(o.c))
                                   /\ Report(IF o.crash # "" THEN {"NoError"}
                                             ELSE {"RoundTrip" \o x : x \in Content(layer, layer', o.name) \cup Orders(layer, layer')})
             [] o.op = "edit" -> UNCHANGED file /\ layer' = ToC(o.c)
             [] o.op = "save" -> /\ layer' = Named(layer, o.stem) /\ file' = (IF o.crash # "" THEN file ELSE <<ToC(o.c), KidsOf(o.c)>>)
                                 /\ Report(IF o.crash # "" THEN {"NoError"}
                                           ELSE {"Saved" \o x : x \in Save(layer', file'[1], o.name)}
                                                \cup Chk("OtherFilesUntouched", o.others) \cup Chk("SavedWhere", o.where))
             [] o.op = "again" -> UNCHANGED <<file, layer>> /\ Report(Chk("SavingAgainGivesTheSameFile", o.same))
             [] o.op = "failed" -> file' = file /\ layer' = Named(layer, o.stem) /\ Report(Chk("FailedSaveLeavesTheFile", o.same))
Spec == Init /\ [][Next]_vars
=============================================================================
