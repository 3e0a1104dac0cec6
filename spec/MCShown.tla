------------------------------ MODULE MCShown ------------------------------
(* A composite that stays on show while its layers are edited.  The model     *)
(* edits the layers; what is shown is the composition of the layers as they   *)
(* are by then.  The properties say how far an edit reaches: they are what    *)
(* lets a composite be brought up to date without building it again.          *)
EXTENDS NxtComp, Json
CONSTANTS MaxSteps, Plain, Wide
VARIABLES ls, init, h
vars == <<ls, init, h>>
A == <<"a">>  AK == <<"a", "k">>  B == <<"b">>  C == <<"c">>  BK == <<"b", "k">>
NoInst == [k |-> "none", s |-> <<>>]
At(p) == [k |-> "abs", s |-> p]
Def(n, v) == [n |-> n, v |-> v, t |-> None, c |-> None]
Node(p, inst, attrs, co) == [p |-> p, inst |-> inst, code |-> None, comment |-> None, enabled |-> None, exec |-> None,
                             start |-> None, attrs |-> attrs, co |-> co]
Has1(b, v) == IF b THEN <<Def("x", v)>> ELSE <<>>

(* ---- the graphs to start from ---- *)
Two == {<<[id |-> "l0.nxt", n |-> [p \in T |-> Node(p, NoInst, Has1(p \in TX, "top" \o Text(p)), <<>>)]],
          [id |-> "l1.nxt", n |-> [p \in {World, A, AK, B, C} |->
              Node(p, CASE p = B -> ib [] p = C -> ic [] OTHER -> NoInst,
                   IF p = A THEN Has1(ax, "/a") \o <<Def("y", "/a")>> ELSE Has1(p \in X, Text(p)), IF p = A THEN <<"k">> ELSE <<>>)]]>> :
        T \in (IF Wide THEN {{}, {B}, {BK}, {A, C}} ELSE {{B}, {BK}, {A, C}}), TX \in (IF Wide THEN {{}, {B, BK, C}} ELSE {{B, BK, C}}),
        ib \in {NoInst, At(A)}, ic \in (IF Wide THEN {NoInst, At(B), At(AK)} ELSE {At(B), At(AK)}),
        ax \in (IF Wide THEN BOOLEAN ELSE {TRUE}), X \in (IF Wide THEN {{}, {World}, {World, AK}, {B, AK}} ELSE {{World}, {B, AK}})}
One == {<<[id |-> "l0.nxt", n |-> [p \in S |-> Node(p, NoInst, Has1(p \in X, Text(p)), IF p = A /\ AK \in S THEN <<"k">> ELSE <<>>)]]>> :
        S \in {{World, A}, {A}, {A, AK}, {World, A, AK, B}, {A, B, BK}}, X \in {{}, {World}, {A}, {A, AK}}}
Init == init \in (IF Plain THEN One ELSE Two) /\ ls = init /\ h = <<>>

(* ---- edits ---- *)
Did(o, l2) == ls' = l2 /\ h' = Append(h, o) /\ UNCHANGED init
Now == "e" \o ToString(Len(h) + 1)
Put(l, p, nd) == [ls EXCEPT ![l].n[p] = nd]
AttrEdit(l, p) ==
  LET nd == ls[l].n[p]
      held == {nd.attrs[k].n : k \in 1..Len(nd.attrs)}
      Ch(a, r) == [nd EXCEPT !.attrs = [k \in 1..Len(nd.attrs) |-> IF nd.attrs[k].n = a THEN r ELSE nd.attrs[k]]]
      O(d, a, b, v) == [do |-> d, l |-> l - 1, p |-> Text(p), a |-> a, b |-> b, v |-> v] IN
  \/ \E a \in {"x", "y"} :
       Did(O("set", a, "", Now), Put(l, p, IF a \in held THEN Ch(a, [AttrRec(nd, a) EXCEPT !.v = Now])
                                           ELSE [nd EXCEPT !.attrs = Append(nd.attrs, Def(a, Now))]))
  \/ \E a \in {"x", "y"} \ held : Did(O("new", a, "", Now), Put(l, p, [nd EXCEPT !.attrs = Append(nd.attrs, Def(a, Now))]))
  \/ \E a \in held : Did(O("note", a, "", Now), Put(l, p, Ch(a, [AttrRec(nd, a) EXCEPT !.c = Now])))
  \/ \E a \in held : Did(O("del", a, "", ""), Put(l, p, [nd EXCEPT !.attrs = SelectSeq(nd.attrs, LAMBDA r : r.n # a)]))
  \/ \E a \in held, b \in {"m", "y"} \ held : Did(O("ren", a, b, ""), Put(l, p, Ch(a, [AttrRec(nd, a) EXCEPT !.n = b])))
Drop(l, S) == LET kept == DOMAIN ls[l].n \ S IN
  [ls EXCEPT ![l].n = [p \in kept |-> [ls[l].n[p] EXCEPT !.co = SelectSeq(ls[l].n[p].co, LAMBDA m : Append(p, m) \notin S)]]]
NodeEdit ==
  LET D == DOMAIN ls[1].n IN
  \/ \E p \in D \cup {World}, m \in {"k", "b"}, s \in {<<>>, <<Def("x", Now)>>} :
       LET q == Append(p, m) IN
       /\ q \notin D /\ Len(q) <= 3
       /\ Did([do |-> "add", l |-> 0, p |-> Text(p), name |-> m, fix |-> TRUE, attrs |-> [k \in 1..Len(s) |-> <<s[k].n, s[k].v>>]],
              [ls EXCEPT ![1].n = [x \in D \cup {q} |->
                  IF x = q THEN Node(q, NoInst, s, <<>>)
                  ELSE IF x = p /\ p # World THEN [ls[1].n[x] EXCEPT !.co = Append(@, m)] ELSE ls[1].n[x]]])
  \/ \E p \in D \ {World} : Did([do |-> "delete", l |-> 0, p |-> Text(p), desc |-> TRUE], Drop(1, {q \in D : IsPrefixOf(p, q)}))
  \/ \E p \in D \ {World}, v \in {"true", "false", "none"} :
       Did([do |-> "enable", l |-> 0, p |-> Text(p), v |-> v], Put(1, p, [ls[1].n[p] EXCEPT !.enabled = v]))
  \/ \E p \in D \ {World}, v \in BOOLEAN :
       Did([do |-> "code", l |-> 0, p |-> Text(p), v |-> IF v THEN <<"s = " \o ToString(Len(h))>> ELSE <<>>],
           Put(1, p, [ls[1].n[p] EXCEPT !.code = IF v THEN Now ELSE None]))
Next == /\ Len(h) < MaxSteps
        /\ \/ \E l \in 1..Len(ls) : \E p \in DOMAIN ls[l].n : AttrEdit(l, p)
           \/ Plain /\ NodeEdit
Spec == Init /\ [][Next]_vars

(* ---- what is shown ---- *)
Comp(k) == ComposeWith(k, Candidates(k))
Attr(k, c, p, a) ==
  LET ds == Defs(k, c, p, a)
      T == {j \in 1..Len(ds) : DefRec(k, ds[j], a).c # None} IN
  [v |-> DefRec(k, ds[1], a).v, at |-> Text(ds[1][1]), in |-> k[ds[1][2]].id,
   c |-> IF T = {} THEN None ELSE DefRec(k, ds[CHOOSE j \in T : \A i \in T : j <= i], a).c]
Attrs(k, c, p) == [a \in AttrNames(k, c, p) |-> Attr(k, c, p, a)]
Other(k, c, p) == <<Passed(k, c, p, "code"), Passed(k, c, p, "enabled"), Own(k, p, "exec"), c.src[p]>>
Last == h'[Len(h')]
IsAttr == Last.do \in {"set", "note", "new", "del", "ren"}

\* Graphs the edits are made in can be composed, before and after.
Good == LET c == Comp(ls) IN c.ok /\ c.consistent
\* An edit of an attribute leaves the nodes, their sources, order of consultation and everything but attributes as they were,
\* and reaches only the nodes that consult the one edited, and of their attributes only those it names.
AttrReach ==
  [][IsAttr => LET c == Comp(ls)  d == Comp(ls') IN
       /\ d.E = c.E /\ d.src = c.src /\ d.lin = c.lin
       /\ \A q \in c.E : /\ Other(ls', d, q) = Other(ls, c, q)
                         /\ (\A x \in Elems(c.lin[q]) : Text(x) # Last.p) => Attrs(ls', d, q) = Attrs(ls, c, q)
                         /\ \A a \in (AttrNames(ls, c, q) \cap AttrNames(ls', d, q)) \ {Last.a, Last.b} : Attr(ls', d, q, a) = Attr(ls, c, q, a)]_vars
\* Taking back the attribute just made is as if it had not been.
Undone == [][(Len(h') = 2 /\ h'[1].do = "new" /\ h'[2].do = "del" /\ h'[1].p = h'[2].p /\ h'[1].a = h'[2].a /\ h'[1].l = h'[2].l) =>
               LET c == Comp(init)  d == Comp(ls') IN \A q \in c.E : Attrs(ls', d, q) = Attrs(init, c, q)]_vars
\* Value edits never take a name away; a set value is what the node edited shows unless a stronger layer states one.
SetShows == [][Last.do \in {"set", "new"} => LET d == Comp(ls') IN \A q \in d.E :
               Text(q) = Last.p => \/ Attr(ls', d, q, Last.a).v = Last.v /\ Attr(ls', d, q, Last.a).at = Last.p
                                   \/ \E j \in 1..Last.l : q \in DOMAIN ls[j].n /\ HasAttr(ls[j].n[q], Last.a)]_vars
\* In a graph of one layer without instances: nodes come and go without touching what else is shown.
NodeReach ==
  [][(Plain /\ ~IsAttr) => LET c == Comp(ls)  d == Comp(ls')
        same == c.E \cap d.E IN
       /\ \A q \in same : Attrs(ls', d, q) = Attrs(ls, c, q)
       /\ Last.do = "add" => Cardinality(d.E \ c.E) = 1 /\ c.E \subseteq d.E
       /\ Last.do = "delete" => d.E \subseteq c.E /\ \A q \in c.E \ d.E : \E p \in c.E : Text(p) = Last.p /\ IsPrefixOf(p, q)
       /\ Last.do \in {"enable", "code"} => c.E = d.E
       /\ \A q \in same : Other(ls', d, q) # Other(ls, c, q) => Last.do \in {"enable", "code"} /\ Text(q) = Last.p]_vars

RECURSIVE Listed(_, _)
Listed(f, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<f[x]>> \o Listed(f, S \ {x})
Show == IF Len(h) = MaxSteps
        THEN PrintT("@@SCN" \o ToJson([layers |-> [k \in 1..Len(init) |-> [id |-> init[k].id, mute |-> FALSE, solo |-> FALSE, nodes |-> Listed(init[k].n, DOMAIN init[k].n)]],
                                       edits |-> h])) ELSE TRUE
=============================================================================
