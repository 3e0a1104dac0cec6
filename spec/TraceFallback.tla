--------------------------- MODULE TraceFallback ---------------------------
(* Recorded texts with file tokens and what the code makes of them.           *)
EXTENDS NxtFallback, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, x
vars == <<i, l, x>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
PathOf(t) == Walk(<<>>, SplitText(t, 1, ""))
OkF(to) == [st |-> IF to = "" THEN "ok" ELSE "link", refs |-> <<>>, to |-> to]
World1(c) == LET s == {PathOf(c.ex[k]) : k \in 1..Len(c.ex)}
                 all == s \cup ImpliedBy(s) IN
  [files |-> [p \in all |-> LET k == {m \in 1..Len(c.links) : PathOf(c.links[m].f) = p} IN
               IF k = {} THEN OkF("") ELSE OkF(c.links[CHOOSE m \in k : TRUE].to)],
   env |-> c.env, home |-> c.home, roots |-> SelectSeq([k \in 1..Len(c.roots) |-> PathOf(c.roots[k])], LAMBDA r : r \in all)]
G(c) == [layers |-> [k \in 1..Len(c.layers) |-> [c.layers[k] EXCEPT !.dir = PathOf(@)]], from |-> c.from, cwd |-> PathOf(c.w.cwd),
         w |-> World1(c.w), texts |-> [t \in {c.w.texts[k].f : k \in 1..Len(c.w.texts)} |-> c.w.texts[CHOOSE k \in 1..Len(c.w.texts) : c.w.texts[k].f = t].t], cut |-> ""]
Fails(o) ==
  IF o.crash # "" THEN {IF o.crash \in {"Timeout", "RecursionError"} THEN "Terminates" ELSE "NoError"}
  ELSE IF o.op = "after" THEN Chk("NoSideEffect", o.same)
  ELSE IF Cardinality(x.comps) # 1 THEN {}
  ELSE LET c == CHOOSE c \in x.comps : TRUE IN
  IF ~c.consistent \/ o.p \notin c.E \/ ~SameInstances(x, c) \/ ~NoneAppear(x, c) \/ ~NoneRefused(x, c) THEN {}
  ELSE LET want(y) == IF o.op = "value" THEN ReadsValue(y, c, o.p, o.a) ELSE Reads(y, c, o.p, o.t)
           a == want(WithCut(x, "")) IN
       IF a # want(WithCut(x, "@")) THEN {}
       ELSE Chk(o.kind, o.res = a)
Init == i \in 1..Len(Cases) /\ l = 0 /\ x = Prepare(G(Cases[i]))
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ Report(Fails(Cases[i].ops[l + 1]))
        /\ l' = l + 1 /\ i' = i /\ x' = x
Spec == Init /\ [][Next]_vars
=============================================================================
