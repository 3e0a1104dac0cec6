---------------------------- MODULE TraceHeadless ----------------------------
(* Recorded runs from outside against NxtHeadless.  Per case: "graph", then   *)
(* per run one of "cli", "api", "sub"; the events of the node code; "end".    *)
(* "kept": results with values of any kind, saved and loaded.                 *)
EXTENDS TraceRun, NxtHeadless
VARIABLES own, hide
hvars == <<i, l, g, m, own, hide>>
FilesOf(s) == [n \in {s[k].n : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k].n = n]]
OrdersOf(s) == [n \in {s[k].p : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k].p = n].nodes]
Params0(s) == [k \in 1..Len(s) |-> Param(s[k].k, s[k].v)]
Shown(f, hd) == [a \in {a \in DOMAIN f : a \notin hd} |-> f[a]]
\* what the nodes of the results show
ResultFails(x, hd, o) ==
  LET seen == FunBy(o.saved)
      world == {a \in WorldSet(x) : SubSeq(a, 1, 1) # "_"} \ hd IN
  Chk("ResultNodes", DOMAIN seen \ {"/"} = DOMAIN Results(x))
  \cup UNION {LET f == Shown(Results(x)[p], hd)
                  s == Shown(Fun(seen[p].f), hd) IN
         Chk("ResultValues", /\ \A a \in DOMAIN f : f[a] = None \/ (a \in DOMAIN s /\ s[a] = f[a])
                             /\ DOMAIN s \subseteq DOMAIN f
                             /\ \A a \in DOMAIN s : s[a] = f[a])
         : p \in DOMAIN Results(x) \cap DOMAIN seen}
  \cup Chk("ResultWorld", world = {} \/ ("/" \in DOMAIN seen /\ LET s == Fun(seen["/"].f) IN \A a \in world : a \in DOMAIN s /\ s[a] = x.vals[<<World, a>>]))
SeeFails(x, hd, o) ==
  IF x.ev = <<>> THEN {"NothingMoreRuns"}
  ELSE IF x.ev.k # o.k \/ x.ev.p # o.p THEN {"RunsInOrder"}
  ELSE IF o.k = "see" THEN Chk("ValuesSeen", Shown(Fun(o.f), hd) = Shown(x.ev.f, hd)) ELSE Chk("NamesLive", Fun(o.f) = x.ev.f)
\* ways: cli, api, ctx (a remote run), sub, remote (a remote sub-graph)
OverFails(x, hd, o) ==
  Chk("EverythingRan", x.ev = <<>>)
  \cup (IF x.ev # <<>> THEN {} ELSE
   Chk("Status", o.ok = (IF o.way = "api" THEN x.out = "done" ELSE Good(x)))
   \cup Chk("Outcome", o.way # "api" \/ (x.out # "Refused" /\ o.out = x.out) \/ (x.out = "Refused" /\ o.out \notin {"done", "ExitGraph"}))
   \cup Chk("ErrorAtCaller", o.way \notin {"sub", "remote"} \/ o.ok \/ o.out = "Error")
   \cup (IF o.hassaved /\ Good(x) THEN ResultFails(x, hd, o) ELSE {})
   \cup (IF o.way \in {"sub", "remote"} /\ Good(x) /\ o.ok
         THEN LET b == Shown(Back(g, x, own), hd)
                  s == Shown(Fun(o.f), hd) IN
              Chk("GivenBack", \A a \in DOMAIN b : a \in DOMAIN s /\ s[a] = b[a])
              \cup Chk("KeptForLater", \A a \in DOMAIN own \ hd : Fun(o.later)[a] = b[a])
         ELSE {}))
\* values: attributes a node's code left, json: whether a file can hold them
KeptFails(o) ==
  Chk("Saved", o.ok)
  \cup (IF ~o.ok THEN {} ELSE
   Chk("KeptNodes", {o.nodes[k].n : k \in 1..Len(o.nodes)} = {o.back[k].n : k \in 1..Len(o.back)} \ {"/"})
   \cup UNION {LET want == FunBy(o.nodes[k].f)
                   B == {j \in 1..Len(o.back) : o.back[j].n = o.nodes[k].n}
                   got == IF B = {} THEN Empty ELSE Fun(o.back[CHOOSE j \in B : TRUE].f) IN
          Chk("KeptValues", \A a \in DOMAIN want : want[a].json => a \in DOMAIN got /\ got[a] = want[a].v)
          \cup Chk("NothingElseKept", DOMAIN got \subseteq DOMAIN want)
          : k \in 1..Len(o.nodes)})
Same == UNCHANGED <<g, m, own, hide>>
HInit == Init /\ own = Empty /\ hide = {}
HNext == /\ l < Len(Cases[i].ops)
        /\ l' = l + 1 /\ i' = i
        /\ LET o == Cases[i].ops[l + 1] IN
           CASE o.op = "graph" -> /\ g' = MkGraph(o) /\ UNCHANGED <<m, own, hide>>
                                  /\ IF g' = <<>> THEN PrintT("@@SKIP" \o ToJson([case |-> i])) ELSE TRUE
             [] o.op = "kept" -> Same /\ Report(KeptFails(o))
             [] o.op \notin {"graph", "kept"} /\ g = <<>> -> Same
             [] o.op = "cli" /\ g # <<>> -> /\ g' = g /\ own' = Empty /\ hide' = Elems(o.hide)
                                           /\ m' = LaunchArgs(g, o.start, o.args, FilesOf(o.files), OrdersOf(o.orders))
             [] o.op = "api" /\ g # <<>> -> /\ g' = g /\ own' = Empty /\ hide' = Elems(o.hide)
                                           /\ m' = Launch(g, o.start, Params0(o.params), OrdersOf(o.orders))
             [] o.op = "sub" /\ g # <<>> -> /\ g' = g /\ own' = Fun(o.own) /\ hide' = Elems(o.hide)
                                           /\ m' = SubLaunch(g, own', [k \in 1..Len(o.own) |-> o.own[k].n], o.start, Params0(o.params), OrdersOf(o.orders))
             \* the same node once more: it has what it was given back
             [] o.op = "again" /\ g # <<>> ->
                  LET o1 == Cases[i].ops[CHOOSE k \in 1..l : Cases[i].ops[k].op = "sub" /\ \A j \in k + 1..l : Cases[i].ops[j].op # "sub"]
                      b == Back(g, m, own) IN
                  /\ UNCHANGED <<g, hide>> /\ own' = [a \in DOMAIN own |-> b[a]]
                  /\ m' = SubLaunch(g, own', [k \in 1..Len(o1.own) |-> o1.own[k].n], o1.start, Params0(o1.params), OrdersOf(o1.orders))
             [] o.op = "ev" /\ g # <<>> -> /\ UNCHANGED <<g, own, hide>> /\ m' = Next1(m) /\ Report(SeeFails(m', hide, o))
             [] o.op = "end" /\ g # <<>> -> /\ UNCHANGED <<g, own, hide>> /\ m' = Next1(m) /\ Report(OverFails(m', hide, o))
HSpec == HInit /\ [][HNext]_hvars
=============================================================================
