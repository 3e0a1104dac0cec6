---------------------------- MODULE TraceTokens ----------------------------
(* Recorded calls of the token functions and of resolving.                    *)
EXTENDS NxtTokens, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l
vars == <<i, l>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Range(s) == {s[k] : k \in 1..Len(s)}
AttrsOf(s) == [n \in {s[k].n : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k].n = n].v]
G(c) == [vals |-> [p \in {c.nodes[k].p : k \in 1..Len(c.nodes)} |-> AttrsOf(c.nodes[CHOOSE k \in 1..Len(c.nodes) : c.nodes[k].p = p].attrs)],
         files |-> [f \in {c.files[k].f : k \in 1..Len(c.files)} |-> c.files[CHOOSE k \in 1..Len(c.files) : c.files[k].f = f].t],
         cut |-> ""]
Result(g, p, t, o, name) ==
  IF o.crash # "" THEN {"Terminates"}
  ELSE IF Cyclic(g, p, t) THEN {}
  ELSE Chk(name, o.res = Resolve(g, p, t, {}))
\* some readers give the tokens of a text of one kind only
Kind(tok) == IF Content(tok) = "_nxtpath" THEN "path" ELSE IF Starts(Content(tok), "contents::") THEN "contents" ELSE "attr"
RECURSIVE JoinLines(_)
JoinLines(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "\n" \o JoinLines(Tail(s))
Fails(o) ==
  LET g == G(Cases[i]) IN
  CASE o.op = "scan" -> IF o.crash # "" THEN {"Terminates"} ELSE
         Chk("Standalone", o.tokens = Tokens(o.t))
         \cup Chk("StandaloneOfKind", \A k \in 1..Len(o.kinds) : o.kinds[k].tokens = SelectSeq(Tokens(o.t), LAMBDA x : Starts(x, "${" \o o.kinds[k].prefix)))
         \cup Chk("Innermost", ~Matched(o.t) \/ Range(o.atomic) = Atomic(o.t))
         \cup Chk("InnermostOnce", Len(o.atomic) = Cardinality(Range(o.atomic)))
         \cup Chk("ContentAndBack", \A k \in 1..Len(o.tokens) : o.contents[k] = Content(o.tokens[k]) /\ o.made[k] = o.tokens[k])
    [] o.op = "resolve" -> Result(g, o.p, o.t, o, IF Tokens(o.t) = <<>> THEN "Untouched" ELSE "Resolved")
    [] o.op = "value" -> Result(g, o.p, g.vals[o.p][o.a], o, "AttributeValue") \cup Chk("RawValue", o.raw = g.vals[o.p][o.a])
    [] o.op = "code" -> IF \E k \in 1..Len(o.lines) : Cyclic(g, o.p, o.lines[k]) THEN Chk("Terminates", o.crash = "")
                        ELSE IF o.crash # "" THEN {"Terminates"}
                        ELSE Chk("Code", o.res = JoinLines([k \in 1..Len(o.lines) |-> Resolve(g, o.p, o.lines[k], {})]))
                             \cup Chk("CodeLines", JoinLines(o.reslines) = o.res /\ \A k \in 1..Len(o.reslines) : \A m \in 1..Len(o.reslines[k]) : Char(o.reslines[k], m) # "\n")
    [] o.op = "after" -> Chk("NoSideEffect", o.same)
Init == i \in 1..Len(Cases) /\ l = 0
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ Report(Fails(Cases[i].ops[l + 1]))
        /\ l' = l + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
=============================================================================
