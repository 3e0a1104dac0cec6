------------------------------- MODULE MCRun --------------------------------
(* Small graph, every combination of programs that end in every way, run and  *)
(* then continued.                                                            *)
EXTENDS NxtRun, TLC, Json
VARIABLES g, m, prog, off, call, lists
vars == <<g, m, prog, off, call, lists>>
NoInst == [k |-> None, s |-> <<>>]
S(k, a, v) == [k |-> k, a |-> a, v |-> v, ps |-> <<>>, pr |-> <<>>, safe |-> FALSE, gs |-> <<>>, start |-> ""]
Run(ps, safe) == [S("exec", "", "") EXCEPT !.ps = ps, !.safe = safe]
Glob(a, gs) == [S("global", a, "k") EXCEPT !.gs = gs]
See == S("see", "", "")
Probe == S("probe", "", "")
WorldMenu == << <<>>, <<S("set", "x", "w"), S("local", "h", "k")>>, <<S("set", "x", "w"), S("exitnode", "", "")>>,
                <<S("exitgraph", "", "")>>, <<S("raise", "", "")>> >>
Menu(p) == << <<See, S("set", "x", "n" \o p)>>,
              <<S("set", "x", "n" \o p), S("exitnode", "", ""), See>>,
              <<S("set", "x", "n" \o p), S("exitgraph", "", "")>>,
              <<S("set", "x", "n" \o p), S("raise", "", ""), See>>,
              <<S("syntax", "", "")>>,
              <<Glob("g", <<"g">>), S("local", "gx", "k"), S("local", "loc", "k"), Probe>>,
              <<Probe, See>>,
              <<S("app", "x", "7"), See>> >>
AMenu == Menu("a") \o << <<S("set", "x", "na"), Run(<<"/c">>, FALSE), S("cat", "x", "2"), Probe>>,
                         <<S("local", "loc", "k"), Run(<<"/c", "/zz">>, TRUE), See, Probe>>,
                         <<S("mk", "x", "5"), See>> >>
Progs == [w : 1..Len(WorldMenu), a : 1..Len(AMenu), b : {1, 2, 4, 6, 8}, c : {1, 2, 3, 4, 6}]
Key(x, n) == x \o ToString(n)
Node(p, code, attrs, on) == [p |-> p, inst |-> NoInst, code |-> code, comment |-> None, enabled |-> on, exec |-> None,
   start |-> None, attrs |-> attrs, co |-> <<>>]
At(n, v) == <<[n |-> n, v |-> v, t |-> None, c |-> None]>>
LayersOf(q, o) == <<[id |-> "l0.nxt", mute |-> FALSE, solo |-> FALSE, nodes |-> <<
   Node(World, Key("w", q.w), <<>>, None),
   Node(<<"a">>, Key("a", q.a), At("x", "v"), None),
   Node(<<"a", "b">>, Key("b", q.b), <<>>, IF o THEN "false" ELSE None),
   Node(<<"c">>, Key("c", q.c), At("y", "${/a.x}") \o At("x", "c"), None)>>]>>
Refs == [n \in {"${/a.x}"} |-> [lit |-> "", p |-> "/a", a |-> "x"]]
Table(q) == [k \in {Key("w", q.w), Key("a", q.a), Key("b", q.b), Key("c", q.c)} |->
   CASE k = Key("w", q.w) -> WorldMenu[q.w] [] k = Key("a", q.a) -> AMenu[q.a]
     [] k = Key("b", q.b) -> Menu("b")[q.b] [] OTHER -> Menu("c")[q.c]]
MkG(q, o) == LET ls == IndexAll(LayersOf(q, o)) IN Graph(ls, CHOOSE c \in Composites(ls) : TRUE, Table(q), Refs)
Lists == { << <<"/a", "/a/b", "/c">>, <<"/c">> >>, << <<"/c", "/a">>, <<"/a/b", "/zz", "/c">> >> }
Init == /\ prog \in Progs /\ off \in BOOLEAN /\ lists \in Lists /\ call = 1
        /\ g = MkG(prog, off)
        /\ m = Start(g, M0, TRUE, <<[p |-> "/c", a |-> "x", v |-> "pc"]>>, lists[1])
Next == /\ UNCHANGED <<g, prog, off, lists>>
        /\ IF Running(m) THEN m' = Step(g, m) /\ call' = call
           ELSE call = 1 /\ m.out # "Error" /\ call' = 2 /\ m' = Start(g, m, FALSE, <<>>, lists[2])
Spec == Init /\ [][Next]_vars
Simple == prog.a <= 8
On(l) == SelectSeq(l, LAMBDA t : ~(t = "/a/b" /\ off) /\ t # "/zz")
Last(s) == s[Len(s)]
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == a = <<>> \/ (b # <<>> /\ IF Head(a) = Head(b) THEN SubSeqOf(Tail(a), Tail(b)) ELSE FALSE)
Guarantees ==
  /\ Simple => /\ call = 1 => SubSeqOf(m.ran, On(lists[1]))            \* in order, once, the enabled ones
               /\ (call = 1 /\ m.out = "done") => m.ran = On(lists[1])
               /\ m.out = "Error" => m.ran = <<>> \/ Last(m.ran) = m.at \* nothing after a failure
  /\ m.out = "Error" => m.at # ""
  /\ (m.out = "Missing") => m.at = "/zz"
  \* names of node code do not survive it; what the world's code made stays
  /\ ~Running(m) => DOMAIN m.glob \subseteq {"g", "h"}
  \* a node that failed leaves no values behind, others keep theirs
  /\ (m.out = "Error" /\ Simple /\ call = 1 /\ m.at \in {"/a", "/a/b"}) => \A k \in DOMAIN m.vals : Text(k[1]) # m.at
  \* what a node computed is what every later reader gets
  /\ \A t \in {"/a"} : (Simple /\ prog.a \in {1, 2} /\ t \in Elems(m.ran) /\ (~Running(m) \/ Last(m.ran) # t)) =>
        /\ Resolve(g, m, "/c", "y") = "na" /\ (prog.b # 1 /\ prog.b # 2 => Raw(g, m, <<"a", "b">>, "x") = "na")
  \* parameters were there before any code
  /\ m.ran = <<>> => Raw(g, m, <<"c">>, "x") = "pc"
  \* a run that is over has nothing open
  /\ ~Running(m) => m.stk = <<>>
OnlyOwn == [][ LET news == {k \in DOMAIN m'.vals : k \notin DOMAIN m.vals \/ m'.vals[k] # m.vals[k]} IN
           call' = call => \A k \in news : \E i \in 1..Len(m.stk) : m.stk[i].kind # "list" /\ m.stk[i].p = k[1] ]_vars
Show == IF Running(m) \/ (call = 1 /\ m.out # "Error") THEN TRUE
        ELSE PrintT("@@SCN" \o ToJson([layers |-> LayersOf(prog, off), w |-> WorldMenu[prog.w], a |-> AMenu[prog.a],
                b |-> Menu("b")[prog.b], c |-> Menu("c")[prog.c], lists |-> lists]))
=============================================================================
