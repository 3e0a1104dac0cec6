---------------------------- MODULE TraceSession ----------------------------
(* Recorded histories of sessions: files opened and closed, executions nested  *)
(* in each other, servers started and shut down.                               *)
EXTENDS NxtSession, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, x
vars == <<i, l, x>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Rec(g) == [h |-> g.h, path |-> g.path, name |-> g.name, marks |-> Elems(g.marks)]
Seen(o, s) == {Rec(g) : g \in Elems(o.open[s])}
\* the error of an execution that never gets to the graph's code
Refusal(o) == IF ~Gettable(x, o.s, o.f) THEN {"FileNotFoundError", "OSError", "IOError"}
              ELSE IF Starts(x, o) /\ ~Spawned(o) THEN {"OSError", "BlockingIOError", "PermissionError", "FileNotFoundError"}
              ELSE IF o.api = "ctx" /\ x.srv = "" /\ ~Starts(x, o) THEN {"ConnectionRefusedError"}
              ELSE IF o.pre = "build" THEN {"BuildFault"} ELSE IF o.pre = "badstart" THEN {"ValueError"} ELSE {"InvalidNodeError"}
Base(how) == Cases[i].base[how]
\* what the state is after a step that may be more than one
Next1(o) ==
  CASE o.op = "call" -> Called(x, o)
    [] o.op = "finish" -> IF x.stack = <<>> THEN x ELSE Finished(x)
    [] o.op = "die" -> Died(x)
    [] o.op = "start" -> Begun(x, o.s, TRUE, o.spawn)
    [] o.op = "stop" -> Ended(x, o.s)
    [] o.op = "new" -> New(x, o.s, o.name)
    [] o.op = "load" -> IF o.f \in DOMAIN x.disk THEN Loaded(x, o.s, o.f) ELSE x
    [] o.op = "get" -> Got(x, o.s, o.f)
    [] o.op = "unload" -> Unloaded(x, o.s, o.h)
    [] o.op = "mark" -> Marked(x, o.s, o.h, o.m)
    [] o.op = "save" -> IF WithPath(x, o.s, o.f) = {} THEN x ELSE Saved(x, o.s, o.f, o.to, o.name)
Result(o, y) ==
  CASE o.op = "call" -> IF Stillborn(x, o) THEN Chk("NotRun", ~o.ran) \cup (IF o.ran THEN {} ELSE Chk("SameError", o.res \in Refusal(o)))
                        ELSE Chk("Runs", o.ran)
    [] o.op = "finish" -> Chk(IF o.ctx THEN "RemoteResult" ELSE "SameOutcome", IF o.ctx THEN (IF o.how = "error" THEN o.res \notin {"ok", "Timeout"} ELSE IF o.how = "fault" THEN o.res = "Fault" ELSE o.res = "ok") ELSE o.res = Base(o.how))
    [] o.op = "start" -> Chk("StartOutcome", IF x.srv = "" /\ o.spawn # "ok" THEN o.res = "OSError" ELSE o.res = "ok")
    [] o.op = "stop" -> Chk("NoError", o.res = "ok")
    [] o.op = "new" -> Chk("NoError", o.res = "ok") \cup Chk("NewNameUnused", o.name \notin Names(x, o.s)) \cup Chk("FreeNameKept", "untitled" \in Names(x, o.s) \/ o.name = "untitled")
    [] o.op = "load" -> IF o.f \in DOMAIN x.disk THEN Chk("NoError", o.res = "ok") \cup Chk("NewStage", o.h = x.made + 1)
                        ELSE Chk("MissingFileError", o.res \in {"FileNotFoundError", "OSError", "IOError"})
    [] o.op = "get" -> IF ~Gettable(x, o.s, o.f) THEN Chk("MissingFileError", o.res \in {"FileNotFoundError", "OSError", "IOError"})
                       ELSE Chk("NoError", o.res = "ok") \cup
                            Chk("LoadedOnce", LET w == {x.open[o.s][k].h : k \in WithPath(x, o.s, o.f)} IN IF w = {} THEN o.h = x.made + 1 ELSE o.h \in w)
    [] o.op = "unload" -> Chk("UnknownRefused", o.res = IF Has(x, o.s, o.h) THEN "ok" ELSE "LookupError")
    [] o.op = "mark" -> Chk("NoError", o.res = "ok")
    [] o.op = "save" -> Chk("NamedAfterFile", WithPath(x, o.s, o.f) = {} \/ (CHOOSE g \in Elems(x.open[o.s]) : g.path = o.f).name # "untitled" \/ o.name = o.to) \cup Chk("SaveOutcome", o.res = IF WithPath(x, o.s, o.f) = {} THEN "False" ELSE "True")
    [] OTHER -> {}
Fails(o) ==
  LET y == Next1(o) IN
  Result(o, y)
  \cup UNION {Chk("OpenGraphs", Seen(o, s) = Elems(y.open[s])) : s \in Sessions}
  \cup Chk(IF y.srv = "" THEN "ServerGone" ELSE IF o.srv = "" THEN "ServerRuns" ELSE "ServerKept", o.srv = y.srv)
  \cup Chk("NothingLeftBehind", o.strays = 0)
Files(c) == [f \in {c.files[k] : k \in 1..Len(c.files)} |-> [name |-> f, marks |-> {}]]
Init == i \in 1..Len(Cases) /\ l = 0 /\ x = Start0(IF Cases[i].out THEN "X" ELSE "", Files(Cases[i]))
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ LET o == Cases[i].ops[l + 1] f == Fails(o) IN
             \* after a step that went wrong nothing more is asked
             Report(f) /\ x' = Next1(o) /\ l' = IF f = {} THEN l + 1 ELSE Len(Cases[i].ops)
        /\ i' = i
Spec == Init /\ [][Next]_vars
=============================================================================
