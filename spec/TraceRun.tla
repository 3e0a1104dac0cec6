------------------------------ MODULE TraceRun ------------------------------
(* Recorded runs against NxtRun.  Per case: "graph", then per run "call",     *)
(* the events the node code reported, and "end".                              *)
EXTENDS NxtRun, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, g, m
vars == <<i, l, g, m>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Fun(s) == [n \in {s[k].n : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k].n = n].v]
FunBy(s) == [n \in {s[k].n : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k].n = n]]
RECURSIVE ToEvent(_)
ToEvent(x) == IF Running(x) /\ x.ev = <<>> THEN ToEvent(Step(g, x)) ELSE x
Next1(x) == ToEvent([x EXCEPT !.ev = <<>>])
Count(s, e) == Cardinality({k \in 1..Len(s) : s[k] = e})
MkGraph(o) ==
  LET ls == IndexAll(ActiveLayers(o.layers))
      cs == Composites(ls)
      real == {c \in cs : c.consistent /\ {Text(p) : p \in c.E} = Elems(o.nodes)}
  IN IF Disputable(ls) /= {} \/ real = {} THEN <<>>
     ELSE Graph(ls, CHOOSE c \in real : TRUE, [n \in DOMAIN FunBy(o.progs) |-> FunBy(o.progs)[n].prog], FunBy(o.refs))
EvFails(x, o) ==
  IF x.ev = <<>> THEN {"NothingMoreRuns"}
  ELSE IF x.ev.k # o.k \/ x.ev.p # o.p THEN {"RunsInOrder"}
  ELSE IF o.k = "see" THEN Chk("ValuesSeen", Fun(o.f) = x.ev.f) ELSE Chk("NamesLive", Fun(o.f) = x.ev.f)
EndFails(x, o) ==
  Chk("EverythingRan", x.ev = <<>>)
  \cup (IF x.ev # <<>> THEN {} ELSE
   Chk("Outcome", o.out = x.out)
   \cup Chk("ErrorNamesNode", o.out \notin {"Error", "Missing"} \/ x.at \in Elems(o.names))
   \cup Chk("ErrorAtNode", o.out # "Error" \/ o.top = x.top)
   \* after an error the caller has no runtime layer to look at
   \cup (IF ~o.layer THEN Chk("LayerReturned", o.out \in {"Error", "Missing"}) ELSE
      Chk("StartedOnce", \A t \in Elems(x.ran) \cup {o.times[k].p : k \in 1..Len(o.times)} :
              LET S == {k \in 1..Len(o.times) : o.times[k].p = t} IN
                Count(x.ran, t) = (IF S = {} THEN 0 ELSE o.times[CHOOSE k \in S : TRUE].n))
      \cup Chk("TimesRecorded", \A k \in 1..Len(o.times) : o.times[k].ok)
      \cup Chk("Cached", Elems(o.cached) \ {"/"} = Elems(x.ran) \ {"/"})
      \cup Chk("GlobalsLeft", Fun(o.glob) = x.glob)
      \cup UNION {LET v == o.vals[k] IN
             IF v.p \notin DOMAIN g.byText THEN {}
             ELSE LET p == g.byText[v.p] IN
               Chk("AttrsAfter", {v.f[j].n : j \in 1..Len(v.f)} = RtAttrs(g, x, p))
               \cup Chk("ValuesAfter", \A j \in 1..Len(v.f) : v.f[j].v = Raw(g, x, p, v.f[j].n))
               \cup Chk("ResolvedAfter", \A j \in 1..Len(v.r) : v.r[j].v = Resolve(g, x, v.p, v.r[j].n))
           : k \in 1..Len(o.vals)}))
Init == i \in 1..Len(Cases) /\ l = 0 /\ g = <<>> /\ m = M0
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ l' = l + 1 /\ i' = i
        /\ LET o == Cases[i].ops[l + 1] IN
           CASE o.op = "graph" -> /\ g' = MkGraph(o) /\ m' = m
                                  /\ IF g' = <<>> THEN PrintT("@@SKIP" \o ToJson([case |-> i])) ELSE TRUE
             [] o.op # "graph" /\ g = <<>> -> UNCHANGED <<g, m>>
             [] o.op = "call" /\ g # <<>> -> g' = g /\ m' = Start(g, m, o.fresh, o.params, o.nodes)
             [] o.op = "ev" /\ g # <<>> -> /\ g' = g /\ m' = Next1(m) /\ Report(EvFails(m', o))
             [] o.op = "end" /\ g # <<>> -> /\ g' = g /\ m' = Next1(m) /\ Report(EndFails(m', o))
             [] o.op = "crash" /\ g # <<>> -> UNCHANGED <<g, m>> /\ Report({"UnexpectedError"})
Spec == Init /\ [][Next]_vars
=============================================================================
