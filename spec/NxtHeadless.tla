----------------------------- MODULE NxtHeadless -----------------------------
(* Running a graph from outside: the command line, a session, a remote run or *)
(* a node of another graph; what each is given and what each gives back.      *)
EXTENDS NxtRun
(* ------------------------------------------------------- parameter lists *)
\* an attribute path: what is before the last dot, and what is behind it
RECURSIVE DotAt(_, _)
DotAt(t, k) == IF k = 0 THEN 0 ELSE IF SubSeq(t, k, k) = "." THEN k ELSE DotAt(t, k - 1)
Split(t) == LET k == DotAt(t, Len(t)) IN
  IF k = 0 \/ k = Len(t) THEN [p |-> t, a |-> ""] ELSE [p |-> SubSeq(t, 1, k - 1), a |-> SubSeq(t, k + 1, Len(t))]
Legal(t) == Len(t) > 0 /\ SubSeq(t, 1, 1) = "/" /\ Split(t).a # ""
Param(k, v) == LET s == Split(k) IN [p |-> s.p, a |-> s.a, v |-> v]
Refused == [ok |-> FALSE, ps |-> <<>>]
\* files: name -> [ok, ps: pairs of key and value] of the parameter files there are
ParseArgs(args, files) ==
  IF Len(args) = 1
  THEN IF args[1] \notin DOMAIN files \/ (args[1] \in DOMAIN files /\ ~files[args[1]].ok) THEN Refused
       ELSE LET q == files[args[1]].ps IN [ok |-> TRUE, ps |-> [k \in 1..Len(q) |-> Param(q[k].k, q[k].v)]]
  ELSE IF Len(args) % 2 = 1 \/ \E k \in 1..Len(args) : k % 2 = 1 /\ ~Legal(args[k]) THEN Refused
  ELSE [ok |-> TRUE, ps |-> [k \in 1..(Len(args) \div 2) |-> Param(args[2 * k - 1], args[2 * k])]]

(* ---------------------------------------------------------------- starting *)
StartPoints(g) == {p \in g.c.E : Own(g.ls, p, "start") = "true"}
\* where a run begins: the node asked for, else a start point; <<>> if nowhere
Begins(g, start) == IF start # "" THEN {start} \cap DOMAIN g.byText ELSE {Text(p) : p \in StartPoints(g)}
\* nothing of the graph runs
Stopped(m) == [m EXCEPT !.out = "Refused", !.stk = <<>>, !.ev = <<>>]
\* orders: start -> the nodes that run from it
Launch(g, start, params, orders) ==
  LET S == Begins(g, start) IN
  IF S = {} THEN Stopped(M0) ELSE Start(g, M0, TRUE, params, orders[CHOOSE t \in S : TRUE])
LaunchArgs(g, start, args, files, orders) ==
  LET q == ParseArgs(args, files) IN IF q.ok THEN Launch(g, start, q.ps, orders) ELSE Stopped(M0)
Good(m) == m.out \in {"done", "ExitGraph"}

(* ------------------------------------------------------------- sub-graphs *)
\* own: attribute -> text of the calling node; the graph gets them on its world node
SubLaunch(g, own, names, start, params, orders) ==
  Launch(g, start, params \o [k \in 1..Len(names) |-> [p |-> "/", a |-> names[k], v |-> own[names[k]]]], orders)
\* what was set on the world node, by parameter or code
WorldSet(m) == {k[2] : k \in {k \in DOMAIN m.vals : k[1] = World}}
\* what the calling node has afterwards
Back(g, m, own) == [a \in DOMAIN own \cup WorldSet(m) |-> IF a \in WorldSet(m) THEN m.vals[<<World, a>>] ELSE own[a]]

(* ---------------------------------------------------------------- results *)
\* node text -> attribute -> value, as the results of a run hold them
Results(m) == m.cache
=============================================================================
