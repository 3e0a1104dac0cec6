---------------------------- MODULE TraceLegacy -----------------------------
(* Recorded loads and conversions of files of older versions.                 *)
EXTENDS NxtLegacy, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l
vars == <<i, l>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Fn(s) == [k \in {s[j].k : j \in 1..Len(s)} |-> s[CHOOSE j \in 1..Len(s) : s[j].k = k].v]
AttrFn(s) == [n \in {s[j].n : j \in 1..Len(s)} |-> LET a == s[CHOOSE j \in 1..Len(s) : s[j].n = n] IN [v |-> a.v, t |-> a.t, c |-> a.c]]
Nodes(o) == [p \in {o.nodes[j].p : j \in 1..Len(o.nodes)} |->
              LET n == o.nodes[CHOOSE j \in 1..Len(o.nodes) : o.nodes[j].p = p] IN [f |-> Fn(n.f), co |-> n.co, attrs |-> AttrFn(n.attrs)]]
ToC(o) == [top |-> Fn(o.top), meta |-> Fn(o.meta), nodes |-> Nodes(o)]
KidsOf(o) == [p \in {o.nodes[j].p : j \in 1..Len(o.nodes)} |->
               LET n == o.nodes[CHOOSE j \in 1..Len(o.nodes) : o.nodes[j].p = p] IN Elems(n.kids)]
Old(c) == [era |-> c.old.era, top |-> Fn(c.old.top), refs |-> c.old.refs, by |-> c.old.by, meta |-> Fn(c.old.meta),
           starts |-> Elems(c.old.starts), nodes |-> Nodes(c.old)]
Era(c) == EraOf(c.maj, c.min, c.cur)
Hung(o) == o.crash \in {"Timeout", "RecursionError", "MemoryError"}
\* what the code keeps beyond what the era says
Plain(m) == Drop(m, {"start_nodes"})
Strip(c) == [c EXCEPT !.meta = Plain(@)]
Fails(o, c) ==
  LET era == Era(c)  says == Says(Old(c)) IN
  IF Hung(o) THEN {"Terminates"}
  ELSE IF Refused(era) THEN
    CASE o.op = "load" -> Chk("Refused", o.crash # "") \cup Chk("NothingLoaded", o.clean) \cup Chk("FileUntouched", o.same)
      [] o.op = "convert" -> Chk("Refused", o.crash # "") \cup Chk("FileUntouched", o.same) \cup Chk("NothingWritten", o.files = <<>>)
      [] o.op = "replace" -> Chk("Refused", o.crash # "") \cup Chk("FileUntouched", o.same)
      [] OTHER -> {"Refused"}
  ELSE IF o.crash # "" THEN {"Accepted"}
  ELSE CASE o.op = "load" -> {"Loaded" \o n : n \in Load(says, Strip(ToC(o.c)), o.name, KidsOf(c.old))} \cup Chk("FileUntouched", o.same)
         [] o.op = "save" -> {"Saved" \o n : n \in Content(says, Strip(ToC(o.c)), o.name)}
         [] o.op = "convert" -> {"Converted" \o n : n \in Content(says, Strip(ToC(o.c)), o.name) \cup Orders(says, ToC(o.c))}
               \cup Chk("ConvertedToTheCurrentVersion", o.version = c.curver) \cup Chk("ConvertingAgainChangesNothing", o.again)
               \cup Chk("FileUntouched", o.same)
         [] o.op = "replace" -> Chk("ReplacedByTheConverted", o.same)
         [] o.op = "again" -> Chk("ConvertingAgainChangesNothing", o.same)
Init == i \in 1..Len(Cases) /\ l = 0
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ Report(Fails(Cases[i].ops[l + 1], Cases[i]))
        /\ l' = l + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
=============================================================================
