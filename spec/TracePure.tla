----------------------------- MODULE TracePure ------------------------------
(* Recorded histories against NxtPure.  What is saved and what a composite    *)
(* shows are digests; the ones to expect come from the same layers loaded and *)
(* built on their own.                                                        *)
EXTENDS NxtPure, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, st, ref
vars == <<i, l, st, ref>>
Fresh(saved, idx) == "" \* what it shows is in ref
Chk(name, ok) == IF ok THEN {} ELSE {name}
Want(k) == IF st'.held[k].rt THEN st'.held[k].shows ELSE ref'[st'.held[k].idx + 1]
Obs(o) ==
  IF o.crash # "" THEN {"NoError"} ELSE
  Chk("SavedGraphUntouched", o.saved = st'.saved)
  \cup Chk("FilesUntouched", o.files)
  \cup (IF Len(o.shows) # Len(st'.held) THEN {"Held"} ELSE
        UNION {IF o.shows[k] = Want(k) THEN {} ELSE
                 IF st'.held[k].rt THEN {"RunsKeepTheirOwnValues"}
                 ELSE IF o.do = "build" /\ k = Len(st'.held) THEN {"BuildsAgree"} ELSE {"CompositeUntouched"}
               : k \in 1..Len(st'.held)})
Init == i \in 1..Len(Cases) /\ l = 0 /\ st = <<>> /\ ref = <<>>
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ l' = l + 1 /\ i' = i
        /\ LET o == Cases[i].ops[l + 1] IN
           CASE o.do = "load" -> st' = Begin(o.saved) /\ ref' = o.ref
             [] o.do = "edit" -> st' = [Begin(o.saved) EXCEPT !.saved[o.k] = o.saved[o.k]] /\ ref' = o.ref /\ Report(
                    Chk("EditTouchesOneLayer", \A x \in 1..Len(o.saved) : x # o.k => o.saved[x] = st.saved[x]))
             [] o.do = "build" -> st' = Build(st, o.k) /\ ref' = ref /\ Report(Obs(o))
             [] o.do = "read" -> st' = Read(st) /\ ref' = ref /\ Report(Obs(o))
             [] o.do = "run" -> /\ st' = (IF o.lost THEN RunLost(st) ELSE Run(st, o.k, o.after))
                                /\ ref' = ref /\ Report(Obs(o))
             [] o.do = "drop" -> st' = Drop(st, o.k) /\ ref' = ref /\ Report(Obs(o))
Spec == Init /\ [][Next]_vars
=============================================================================
