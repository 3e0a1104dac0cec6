---------------------------- MODULE NxtSession ----------------------------
(* Sessions of one process: the graphs each of them has open, the executions   *)
(* they nest in each other and the one command server of the machine.          *)
EXTENDS Naturals, Sequences, FiniteSets
None == ""
Sessions == {"A", "B"}
Elems(s) == {s[k] : k \in 1..Len(s)}
Front(s) == SubSeq(s, 1, Len(s) - 1)
(* A graph that is open: [h: which one it is, path, name, marks: its edits].   *)
(* State: srv, who runs the server ("" no one, "X" someone else); stack, the   *)
(* executions under way, outermost first; open, session -> graphs in the order *)
(* they were opened; made, how many graphs there have ever been; disk, file -> *)
(* its content.                                                                *)
Start0(server, files) == [srv |-> server, stack |-> <<>>, open |-> [s \in Sessions |-> <<>>], made |-> 0, disk |-> files]
Frame0(s, mine, need) == [s |-> s, started |-> mine, needs |-> need]

(* ----------------------------------------------------------------- files *)
Names(x, s) == {g.name : g \in Elems(x.open[s])}
WithPath(x, s, f) == {k \in 1..Len(x.open[s]) : x.open[s][k].path = f}
Has(x, s, n) == \E k \in 1..Len(x.open[s]) : x.open[s][k].h = n
Opened(x, s, g) == [x EXCEPT !.open[s] = Append(@, g), !.made = @ + 1]
Loaded(x, s, f) == Opened(x, s, [h |-> x.made + 1, path |-> f, name |-> x.disk[f].name, marks |-> x.disk[f].marks])
New(x, s, n) == Opened(x, s, [h |-> x.made + 1, path |-> "untitled.nxt", name |-> n, marks |-> {}])
Unloaded(x, s, n) == [x EXCEPT !.open[s] = SelectSeq(@, LAMBDA g : g.h # n)]
Marked(x, s, n, m) == [x EXCEPT !.open[s] = [k \in 1..Len(@) |-> IF @[k].h = n THEN [@[k] EXCEPT !.marks = @ \cup {m}] ELSE @[k]]]
\* a graph without a name of its own is named after its file
Renamed(g, f, stem) == [g EXCEPT !.path = f, !.name = IF @ = "untitled" \/ g.path = "untitled.nxt" THEN stem ELSE @]
Saved(x, s, f, to, stem) ==
  LET k == CHOOSE k \in WithPath(x, s, f) : TRUE
      g == Renamed(x.open[s][k], to, stem) IN
  [x EXCEPT !.open[s][k] = g, !.disk = [p \in DOMAIN @ \cup {to} |-> IF p = to THEN [name |-> g.name, marks |-> g.marks] ELSE @[p]]]
\* what asking for the graph of a file gives
Got(x, s, f) == IF WithPath(x, s, f) # {} THEN x ELSE IF f \in DOMAIN x.disk THEN Loaded(x, s, f) ELSE x
Gettable(x, s, f) == WithPath(x, s, f) # {} \/ f \in DOMAIN x.disk

(* ---------------------------------------------------------------- server *)
(* o: [s, f, api, needs, alone, spawn, pre]; alone: run by nxt itself rather   *)
(* than inside another program; spawn: what becomes of a server that is        *)
(* started; pre: what goes wrong before any code runs.                         *)
Wants(x, o) == o.api = "ctx" \/ o.needs
Starts(x, o) == Gettable(x, o.s, o.f) /\ Wants(x, o) /\ o.alone /\ x.srv = ""
Spawned(o) == o.spawn = "ok"
\* nothing of the graph runs
Stillborn(x, o) == ~Gettable(x, o.s, o.f) \/ (Starts(x, o) /\ ~Spawned(o)) \/ o.pre # "" \/ (o.api = "ctx" /\ x.srv = "" /\ ~Starts(x, o))
Called(x, o) == LET y == Got(x, o.s, o.f) IN
  IF Stillborn(x, o) THEN y
  ELSE LET b == Starts(x, o) IN [y EXCEPT !.stack = Append(@, Frame0(o.s, b, Wants(x, o))), !.srv = IF b THEN o.s ELSE @]
Top(x) == x.stack[Len(x.stack)]
Finished(x) == [x EXCEPT !.stack = Front(@), !.srv = IF Top(x).started /\ @ = Top(x).s THEN "" ELSE @]
Died(x) == [x EXCEPT !.srv = ""]
\* a server that is wanted whatever the graphs need, and given up again
Begun(x, s, alone, spawn) == IF x.srv = "" /\ alone /\ spawn = "ok" THEN [x EXCEPT !.srv = s] ELSE x
Ended(x, s) == IF x.srv = s THEN [x EXCEPT !.srv = ""] ELSE x
=============================================================================
