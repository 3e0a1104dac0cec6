------------------------------- MODULE NxtRun -------------------------------
(* Running a graph: node code as small programs, runtime values, globals,    *)
(* nested executions, the ways code can end.                                  *)
(* A statement: [k, a, v, ps, pr, safe, gs]                                   *)
(*   set    self.a = v             cat   self.a = str(self.a) + v             *)
(*   mk     self.a = [v]           app   self.a.append(v), if it is a list    *)
(*   ref    self.a = '${ps[1].v}', resolved when the node's code is           *)
(*   del    del self.a             see   report what self looks like          *)
(*   local  a = v                  global  global gs ; a = v                  *)
(*   probe  report which of the names are there                              *)
(*   exitnode, exitgraph, raise, sysexit: how code may end early              *)
(*   syntax anywhere: the code does not compile                               *)
(*   exec   run the nodes ps with parameters pr; safe: whatever goes wrong in there is caught    *)
(* Values are texts; refs: text -> [lit, p, a] for those that refer to        *)
(* attribute a of node p (p a text).                                          *)
EXTENDS NxtComp
\* g: [ls, c, progs: code text -> program, refs: text -> record, byText: text -> path]
Graph(ls, c, progs, refs) ==
  [ls |-> ls, c |-> c, progs |-> progs, refs |-> refs, byText |-> [t \in {Text(p) : p \in c.E} |-> CHOOSE p \in c.E : Text(p) = t],
   defs |-> [p \in c.E |-> [a \in AttrNames(ls, c, p) |-> Defs(ls, c, p, a)]],
   on |-> [p \in c.E |-> Passed(ls, c, p, "enabled") /= "false"],
   code |-> [p \in c.E |-> Passed(ls, c, p, "code")]]

RtAttrs(g, m, p) == DOMAIN g.defs[p] \cup {k[2] : k \in {k \in DOMAIN m.vals : k[1] \in Elems(g.c.lin[p])}}
\* position in the inheritance order of the nearest statement of a
Raw(g, m, p, a) ==
  LET lin == g.c.lin[p]
      rt == {i \in 1..Len(lin) : <<lin[i], a>> \in DOMAIN m.vals}
      ds == IF a \in DOMAIN g.defs[p] THEN g.defs[p][a] ELSE <<>>
      df == IF ds = <<>> THEN {} ELSE {CHOOSE i \in 1..Len(lin) : lin[i] = ds[1][1]}
      Min(S) == CHOOSE i \in S : \A j \in S : i <= j
  IN IF rt = {} /\ df = {} THEN None
     ELSE IF df = {} \/ (rt /= {} /\ Min(rt) <= Min(df)) THEN m.vals[<<lin[Min(rt)], a>>]
     ELSE DefRec(g.ls, ds[1], a).v
RECURSIVE Resolve(_, _, _, _)
ResolveText(g, m, t) == IF t \in DOMAIN g.refs THEN g.refs[t].lit \o Resolve(g, m, g.refs[t].p, g.refs[t].a) ELSE t
\* what a reference to attribute a of the node at text t gives
Resolve(g, m, t, a) ==
  IF t \notin DOMAIN g.byText \/ (t \in DOMAIN g.byText /\ a \notin RtAttrs(g, m, g.byText[t])) THEN ""
  ELSE LET r == Raw(g, m, g.byText[t], a) IN IF r = None THEN "" ELSE ResolveText(g, m, r)
Real(g, m, p, a) == LET r == Raw(g, m, p, a) IN IF r = None THEN None ELSE ResolveText(g, m, r)

Empty == [x \in {} |-> x]
M0 == [vals |-> Empty, glob |-> Empty, stk |-> <<>>, out |-> "idle", at |-> "", top |-> "", ran |-> <<>>, ev |-> <<>>,
       cache |-> Empty]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Top(m) == m.stk[Len(m.stk)]
Pop(m) == [m EXCEPT !.stk = SubSeq(m.stk, 1, Len(m.stk) - 1)]
Push(m, f) == [m EXCEPT !.stk = Append(m.stk, f)]
SetTop(m, f) == [m EXCEPT !.stk[Len(m.stk)] = f]

Params(g, m, ps) ==
  LET RECURSIVE P(_, _)
      P(v, k) == IF k > Len(ps) THEN v
                 ELSE P(IF ps[k].p \in DOMAIN g.byText /\ ps[k].a /= "" THEN Put(v, <<g.byText[ps[k].p], ps[k].a>>, ps[k].v) ELSE v, k + 1)
  IN [m EXCEPT !.vals = P(m.vals, 1)]
Prog(g, p) == IF g.code[p] = None THEN <<>> ELSE g.progs[g.code[p]]
Resolved(g, m, prog) == [i \in 1..Len(prog) |-> IF prog[i].k = "ref" THEN Resolve(g, m, prog[i].ps[1], prog[i].v) ELSE ""]
Declared(prog) == UNION {Elems(prog[i].gs) : i \in {i \in 1..Len(prog) : prog[i].k = "global"}}
Broken(prog) == \E i \in 1..Len(prog) : prog[i].k = "syntax"

NodeFrame(g, m, p) ==
  LET f == [a \in RtAttrs(g, m, p) |-> Real(g, m, p, a)] IN
  [kind |-> "node", p |-> p, prog |-> Prog(g, p), pc |-> 1, f |-> f, pre |-> f, toks |-> Resolved(g, m, Prog(g, p)),
   good |-> DOMAIN m.glob, decl |-> Declared(Prog(g, p))]
WorldFrame(g, m) ==
  [kind |-> "world", p |-> World, prog |-> Prog(g, World), pc |-> 1, f |-> Empty, pre |-> Empty,
   toks |-> Resolved(g, m, Prog(g, World)), good |-> {}, decl |-> {}]
ListFrame(ps) == [kind |-> "list", rest |-> ps]

\* the frame's names go, the declared ones stay
Clean(m, f) == IF f.kind # "node" THEN m
               ELSE [m EXCEPT !.glob = [x \in DOMAIN m.glob \cap (f.good \cup f.decl) |-> m.glob[x]]]
\* changed attributes become what others see
PushBack(m, f) == IF f.kind # "node" THEN m
  ELSE LET ch == {a \in DOMAIN f.pre : a \in DOMAIN f.f /\ f.f[a] /= f.pre[a]} IN
    [m EXCEPT !.vals = [k \in DOMAIN m.vals \cup {<<f.p, a>> : a \in ch} |->
                           IF k[1] = f.p /\ k[2] \in ch THEN f.f[k[2]] ELSE m.vals[k]]]
\* what the node had when its code ended, whichever way, stays on record
Keep(m, f) == IF f.kind = "node" THEN [m EXCEPT !.cache = Put(m.cache, Text(f.p), f.f)] ELSE m
Leave(m, f) == Keep(PushBack(Clean(Pop(m), f), f), f)

OuterMost(m) == LET S == {i \in 1..Len(m.stk) : m.stk[i].kind # "list"} IN
                IF S = {} THEN "" ELSE Text(m.stk[CHOOSE i \in S : \A j \in S : i <= j].p)
\* what escapes from the top of the stack: kind is ExitGraph, Error or Missing
RECURSIVE Unwind(_, _)
Unwind(m, kind) ==
  IF m.stk = <<>> THEN [m EXCEPT !.out = kind]
  ELSE LET f == Top(m) IN
    IF f.kind = "list" THEN Unwind(Pop(m), kind)
    ELSE IF f.pc <= Len(f.prog) /\ f.prog[f.pc].k = "exec" /\ f.prog[f.pc].safe
    THEN SetTop([m EXCEPT !.at = "", !.top = ""], [f EXCEPT !.pc = f.pc + 1])
    ELSE IF kind = "ExitGraph" THEN Unwind(Leave(m, f), kind)
    ELSE Unwind(Keep(Clean(Pop(m), f), f), IF kind = "Missing" THEN "Error" ELSE kind)
Fail(m, kind, at) == Unwind([m EXCEPT !.at = at, !.top = OuterMost(m)], kind)

\* the world's own code sees its attributes as they are stated
Seen(g, m, f) == IF f.kind = "node" THEN f.f ELSE [a \in RtAttrs(g, m, World) |-> Raw(g, m, World, a)]
Event(m, e) == [m EXCEPT !.ev = e]
SetAttr(m, f, a, v) ==
  IF f.kind = "node" THEN SetTop(m, [f EXCEPT !.f = Put(f.f, a, v), !.pc = f.pc + 1])
  ELSE SetTop([m EXCEPT !.vals = Put(m.vals, <<World, a>>, v)], [f EXCEPT !.pc = f.pc + 1])
\* lists of numbers, told from other texts by how they are written
IsList(t) == Len(t) >= 2 /\ SubSeq(t, 1, 1) = "[" /\ SubSeq(t, Len(t), Len(t)) = "]"
AppendTo(t, v) == SubSeq(t, 1, Len(t) - 1) \o ", " \o v \o "]"
\* one statement
Exec(g, m, f) ==
  LET s == f.prog[f.pc]
      on == [f EXCEPT !.pc = f.pc + 1]
      has == IF f.kind = "node" THEN s.a \in DOMAIN f.f ELSE s.a \in RtAttrs(g, m, World)
      cur == IF f.kind = "node" THEN f.f[s.a] ELSE Raw(g, m, World, s.a)
  IN CASE s.k = "set"  -> SetAttr(m, f, s.a, s.v)
       [] s.k = "ref"  -> SetAttr(m, f, s.a, f.toks[f.pc])
       [] s.k = "cat"  -> IF has THEN SetAttr(m, f, s.a, (IF cur = None THEN "None" ELSE cur) \o s.v) ELSE Fail(m, "Error", Text(f.p))
       [] s.k = "mk"   -> SetAttr(m, f, s.a, "[" \o s.v \o "]")
       [] s.k = "app"  -> IF has /\ cur # None /\ IsList(cur) THEN SetAttr(m, f, s.a, AppendTo(cur, s.v)) ELSE SetTop(m, on)
       [] s.k = "del"  -> IF has THEN SetTop(m, [on EXCEPT !.f = [x \in DOMAIN f.f \ {s.a} |-> f.f[x]]])
                          ELSE Fail(m, "Error", Text(f.p))
       [] s.k = "see"  -> Event(SetTop(m, on), [k |-> "see", p |-> Text(f.p), f |-> Seen(g, m, f)])
       [] s.k \in {"local", "global"} -> SetTop([m EXCEPT !.glob = Put(m.glob, s.a, s.v)], on)
       [] s.k = "probe" -> Event(SetTop(m, on), [k |-> "probe", p |-> Text(f.p), f |-> m.glob])
       [] s.k = "exitnode" -> Leave(m, f)
       [] s.k = "exitgraph" -> Unwind([Leave(m, f) EXCEPT !.at = "", !.top = ""], "ExitGraph")
       [] s.k \in {"raise", "sysexit"} -> Fail(m, "Error", Text(f.p))
       [] s.k = "exec" -> Push(Params(g, m, s.pr), ListFrame(s.ps))

Step(g, m0) ==
  LET m == [m0 EXCEPT !.ev = <<>>]
      f == Top(m) IN
  IF f.kind # "list"
  THEN IF f.pc > Len(f.prog) THEN Leave(m, f) ELSE Exec(g, m, f)
  ELSE IF f.rest = <<>>
  THEN LET n == Pop(m) IN    \* the run is over, or the exec statement is done
       IF n.stk = <<>> THEN [n EXCEPT !.out = "done"]
       ELSE IF Top(n).kind = "list" THEN n
       ELSE SetTop(n, [Top(n) EXCEPT !.pc = Top(n).pc + 1])
  ELSE LET t == Head(f.rest)
           n == SetTop(m, ListFrame(Tail(f.rest))) IN
       \* the world's code ran when the run began, and is not run again
       IF t = "/" THEN [n EXCEPT !.ran = Append(n.ran, t)]
       ELSE IF t \notin DOMAIN g.byText THEN Fail(n, "Missing", t)
       ELSE LET p == g.byText[t] IN
         IF ~g.on[p] THEN n
         ELSE LET k == [n EXCEPT !.ran = Append(n.ran, t)]
                  fr == NodeFrame(g, k, p) IN
              IF Broken(fr.prog) THEN Fail(Push(k, [fr EXCEPT !.pc = Len(fr.prog) + 1]), "Error", t)
              ELSE Push(k, fr)
\* A run: fresh ones start from the composite, with parameters and the world's
\* code; later ones go on with the values and globals there are.
Start(g, m, fresh, params, nodes) ==
  LET b == Params(g, [IF fresh THEN M0 ELSE m EXCEPT !.out = "running", !.stk = <<>>, !.at = "", !.top = "", !.ev = <<>>], params)
      l == Push(b, ListFrame(nodes)) IN
  IF fresh /\ World \in DOMAIN g.code
  THEN LET w == WorldFrame(g, l) IN
       IF Broken(w.prog) THEN [b EXCEPT !.out = "Error", !.at = "/", !.top = "/", !.stk = <<>>] ELSE Push(l, w)
  ELSE l
Running(m) == m.out = "running"
=============================================================================
