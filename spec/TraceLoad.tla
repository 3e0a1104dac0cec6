----------------------------- MODULE TraceLoad -----------------------------
(* Recorded loads of real files and edits of the layers they are loaded into. *)
EXTENDS NxtLoad, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, s, w
vars == <<i, l, s, w>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
PathOf(t) == Walk(<<>>, SplitText(t, 1, ""))
World1(c) == [files |-> [p \in {PathOf(x) : x \in DOMAIN c.files} |-> c.files[CHOOSE x \in DOMAIN c.files : PathOf(x) = p]],
              env |-> c.env, home |-> c.home, roots |-> [k \in 1..Len(c.roots) |-> PathOf(c.roots[k])]]
Got(o) == [k \in 1..Len(o.layers) |-> [f |-> o.layers[k].f, par |-> o.layers[k].par, refs |-> o.layers[k].refs]]
Files(t) == [k \in 1..Len(t) |-> t[k].f]
Pars(t) == [k \in 1..Len(t) |-> t[k].par]
Refs(t) == [k \in 1..Len(t) |-> t[k].refs]
\* the layers after the op, by the specification
After(o) == CASE o.op = "load" -> LET p == Real(w, PathOf(Cases[i].w.top)) IN IF Readable(w, p) THEN LoadTop(w, p) ELSE <<>>
              [] o.op = "add" -> AddSub(w, s, o.k, o.ref)
              [] o.op = "remove" -> Remove(s, o.k)
              [] o.op = "top" -> AddTop(w, s, PathOf(o.ref))
              [] o.op = "reload" -> LoadTop(Saved(w, s), s[1].f)
Fails(o, t) ==
  LET e == Shape(t)  g == Got(o) IN
  Chk("WorkingDirectoryKept", o.same_cwd) \cup
  (IF o.op = "load" /\ t = <<>> THEN Chk("UnreadableRefused", o.crash # "" /\ o.crash \notin {"Timeout", "RecursionError"})
   ELSE IF o.op = "reload" /\ ~OneFile(s) THEN Chk("Terminates", o.crash \notin {"Timeout", "RecursionError"})
   ELSE IF o.crash # "" THEN {IF o.crash \in {"Timeout", "RecursionError"} THEN "Terminates" ELSE "NoError"}
   ELSE Chk(CASE o.op = "load" -> "LoadedAsDeclared" [] o.op = "reload" -> "SavedReferencesLoad" [] OTHER -> "ExactlyThatLayer", Files(e) = Files(g))
        \cup Chk("ParentIsTheReferencingLayer", Files(e) # Files(g) \/ Pars(e) = Pars(g))
        \cup Chk("ReferencesKept", Files(e) # Files(g) \/ Refs(e) = Refs(g))
        \cup Chk("Places", \A k \in 1..Len(o.layers) : o.layers[k].idx = k - 1))
Init == i \in 1..Len(Cases) /\ l = 0 /\ s = <<>> /\ w = World1(Cases[i].w)
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ LET o == Cases[i].ops[l + 1]  t == After(o) IN Report(Fails(o, t)) /\ s' = t
        /\ l' = l + 1 /\ i' = i /\ w' = w
Spec == Init /\ [][Next]_vars
=============================================================================
