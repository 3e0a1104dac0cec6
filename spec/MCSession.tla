----------------------------- MODULE MCSession -----------------------------
(* Every short history of two sessions: executions nested in each other, with  *)
(* something going wrong at every point, or files opened, changed, saved and   *)
(* closed.                                                                     *)
EXTENDS NxtSession, Json, TLC
CONSTANTS Part, Max, Depth, Full
VARIABLES x, hist, ghost
vars == <<x, hist, ghost>>
Files == [f \in {"plain", "sub", "rem", "low"} |-> [name |-> f, marks |-> {}]]
Needs(f) == f # "plain"
\* ghost: one per execution under way: the server before it and whether it has died since
(* ------------------------------------------------------------------ runs *)
Apis == {"graph", "nodes", "ctx"}
C(s, f, api, alone, spawn, pre) == [op |-> "call", s |-> s, f |-> f, api |-> api, needs |-> Needs(f), alone |-> alone, spawn |-> spawn, pre |-> pre, still |-> FALSE]
Calls == {C(s, f, a, TRUE, "ok", "") : s \in Sessions, f \in {"plain", "sub"}, a \in Apis}
         \cup {C("A", f, a, TRUE, "ok", "") : f \in {"rem", "low"}, a \in {"graph", "nodes"}}
         \cup {C("A", f, a, TRUE, sp, "") : f \in {"plain", "sub"}, a \in Apis, sp \in {"popen", "never", "blocked"}}
         \cup {C("A", f, a, FALSE, "ok", "") : f \in {"plain", "sub"}, a \in Apis}
         \cup {C("A", f, "graph", TRUE, "ok", p) : f \in {"plain", "sub"}, p \in {"build", "badstart"}}
         \cup {C("A", f, "nodes", TRUE, "ok", p) : f \in {"plain", "sub"}, p \in {"build", "badnode"}}
         \cup {C("A", "gone", a, TRUE, "ok", "") : a \in Apis}
Hows(api) == IF api = "ctx" THEN {"ok", "error", "fault"} ELSE {"ok", "error", "exit", "interrupt"}
Inner == {o \in Calls : o.api \in {"graph", "ctx"} /\ ~(o.api = "ctx" /\ o.f = "sub") /\ o.f \in {"plain", "sub"} /\ o.alone /\ o.spawn \in {"ok", "never"} /\ o.pre \in {"", "build"} /\ ~(o.pre = "build" /\ o.f = "plain")}
Count == Len(SelectSeq(hist, LAMBDA h : h.op # "die"))
Log(o) == hist' = Append(hist, o)
Call == \E o \in (IF hist = <<>> \/ (x.stack = <<>> /\ Full) THEN Calls ELSE Inner) :
  /\ Len(x.stack) < Depth
  /\ Count + Len(x.stack) + (IF Stillborn(x, o) THEN 1 ELSE 2) <= Max
  /\ x' = Called(x, o) /\ Log([o EXCEPT !.still = Stillborn(x, o)])
  /\ ghost' = IF Stillborn(x, o) THEN ghost ELSE Append(ghost, [was |-> x.srv, died |-> FALSE, api |-> o.api])
Finish == x.stack # <<>> /\ \E h \in (IF Len(x.stack) = 1 THEN Hows(ghost[1].api) ELSE {"ok", "error"}), lost \in {FALSE, TRUE} :
  /\ (lost => Len(x.stack) = 1 /\ h \in {"ok", "error"})
  /\ (lost => Top(x).started /\ x.srv # "")
  /\ x' = Finished(x) /\ Log([op |-> "finish", how |-> h, lost |-> lost])
  /\ ghost' = SubSeq(ghost, 1, Len(ghost) - 1)
Die == /\ x.srv # "" /\ x.stack # <<>> /\ Count + Len(x.stack) < Max + 1
       /\ (~\E k \in 1..Len(hist) : hist[k].op = "die")
       /\ x' = Died(x) /\ Log([op |-> "die"])
       /\ ghost' = [k \in 1..Len(ghost) |-> [ghost[k] EXCEPT !.died = TRUE]]
Explicit == /\ x.stack = <<>> /\ Count < Max
            /\ ~\E k \in 1..Len(hist) : hist[k].op = "die"
            /\ \E s \in Sessions, sp \in {"ok", "never"} : (sp = "ok" \/ s = "A") /\ (
                 \/ x' = Begun(x, s, TRUE, sp) /\ Log([op |-> "start", s |-> s, spawn |-> sp])
                 \/ sp = "ok" /\ x' = Ended(x, s) /\ Log([op |-> "stop", s |-> s]))
            /\ UNCHANGED ghost
(* ----------------------------------------------------------------- files *)
FNames == {"plain", "sub", "gone"}
Pick(s) == {x.open[s][k].h : k \in 1..Len(x.open[s])}
Fresh(s) == IF "untitled" \notin Names(x, s) THEN "untitled"
            ELSE IF "untitled1" \notin Names(x, s) THEN "untitled1"
            ELSE IF "untitled2" \notin Names(x, s) THEN "untitled2" ELSE IF "untitled3" \notin Names(x, s) THEN "untitled3" ELSE "untitled4"
FileOp == /\ Len(hist) < Max /\ UNCHANGED ghost
  /\ \E s \in Sessions :
     \/ \E t \in BOOLEAN : x' = New(x, s, Fresh(s)) /\ Log([op |-> "new", s |-> s, tick |-> t])
     \/ \E f \in FNames, t \in BOOLEAN : x' = (IF f \in DOMAIN x.disk THEN Loaded(x, s, f) ELSE x) /\ Log([op |-> "load", s |-> s, f |-> f, tick |-> t])
     \/ \E f \in FNames : x' = Got(x, s, f) /\ Log([op |-> "get", s |-> s, f |-> f])
     \/ \E k \in Pick(s) \cup {99} : x' = Unloaded(x, s, k) /\ Log([op |-> "unload", s |-> s, h |-> k])
     \/ \E k \in Pick(s), m \in {"m1", "m2"} : x' = Marked(x, s, k, m) /\ Log([op |-> "mark", s |-> s, h |-> k, m |-> m])
     \/ \E f \in FNames, to \in {"plain", "copy"} :
           /\ Cardinality(WithPath(x, s, f)) <= 1
           /\ x' = (IF WithPath(x, s, f) = {} THEN x ELSE Saved(x, s, f, to, to)) /\ Log([op |-> "save", s |-> s, f |-> f, to |-> to])
     \/ \E to \in {"copy"} :
           /\ Cardinality(WithPath(x, s, "untitled.nxt")) = 1
           /\ x' = Saved(x, s, "untitled.nxt", to, to) /\ Log([op |-> "save", s |-> s, f |-> "untitled.nxt", to |-> to])
Init == x \in {Start0(v, Files) : v \in IF Part = "runs" THEN {"", "X"} ELSE {""}} /\ hist = <<>> /\ ghost = <<>>
Next == IF Part = "runs" THEN Call \/ Finish \/ Die \/ Explicit ELSE FileOp
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------ invariants *)
ExplicitOp == \E k \in 1..Len(hist) : hist[k].op \in {"start", "stop", "die"}
\* when all is done the server is as it was before
Balanced == Part = "runs" /\ x.stack = <<>> /\ ~ExplicitOp => x.srv \in {"", "X"}
NothingLeft == Part = "runs" /\ x.stack = <<>> /\ (\E k \in 1..Len(hist) : hist[k].op = "call") /\ ~(\E k \in 1..Len(hist) : hist[k].op = "start") => x.srv \in {"", "X"}
\* code that needs the server has it, unless it died or nxt is a guest here
HasServer == \A k \in 1..Len(x.stack) : x.stack[k].started /\ ~ghost[k].died => x.srv # ""
\* an execution that did not start the server never owns it, and leaves it
NeverTaken == \A k \in 1..Len(x.stack) : ~x.stack[k].started /\ ~ghost[k].died /\ k = Len(x.stack) /\ (k = 1 \/ TRUE) => Finished(x).srv = x.srv
ReturnsAsFound == x.stack # <<>> /\ ~ghost[Len(ghost)].died => Finished(x).srv = ghost[Len(ghost)].was
OneStarter == Cardinality({k \in 1..Len(x.stack) : x.stack[k].started /\ ~ghost[k].died}) <= 1
Someone == x.srv \in Sessions => (\E k \in 1..Len(x.stack) : x.stack[k].started /\ x.stack[k].s = x.srv) \/ (\E k \in 1..Len(hist) : hist[k].op = "start" /\ hist[k].s = x.srv)
\* files
AllApart == Part = "files" => \A s, t \in Sessions : \A j \in 1..Len(x.open[s]), k \in 1..Len(x.open[t]) : (s # t \/ j # k) => x.open[s][j].h # x.open[t][k].h
NewDistinct == \A s \in Sessions : \A j, k \in 1..Len(x.open[s]) :
   j # k /\ x.open[s][j].path = "untitled.nxt" /\ x.open[s][k].path = "untitled.nxt" => x.open[s][j].name # x.open[s][k].name
OthersKept == \A s \in Sessions : \A k \in 1..Len(x.open[s]) : x.open[s][k].h <= x.made
GoneNever == "gone" \notin DOMAIN x.disk
Done == x.stack = <<>> /\ (Count = Max \/ (Part = "runs" /\ Count >= 2 /\ hist[Len(hist)].op = "finish"))
Was == IF x.srv = "X" THEN TRUE ELSE FALSE
SCN == Done => PrintT("@@SCN" \o ToJson([ops |-> hist, out |-> Was]))
=============================================================================
