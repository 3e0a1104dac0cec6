------------------------------- MODULE MCEdit -------------------------------
(* Every short history of edits of one small layer; another, stronger layer   *)
(* may hold names of its own.                                                 *)
EXTENDS NxtEdit, Json
CONSTANTS MaxSteps
VARIABLES L, top, init, h
vars == <<L, top, init, h>>
A == <<"a">>  B == <<"b">>  AB == <<"a", "b">>  ABA == <<"a", "b", "a">>  BA == <<"b", "a">>
Pool == {A, AB, ABA, B, BA}
Fresh(k) == [f |-> ("comment" :> k), co |-> <<>>, attrs |-> <<>>]
Kids(S, p) == {q \in S : Len(q) = Len(p) + 1 /\ IsPrefixOf(p, q)}
\* a loaded layer: every node names the children there are
Order(S, p, stray) == (IF stray /\ p = A THEN <<"z", "a">> ELSE <<>>) \o (IF Kids(S, p) = {} THEN <<>> ELSE <<Last1(CHOOSE q \in Kids(S, p) : TRUE)>>)
Loaded(S, stray) == [nodes |-> [p \in S |-> [f |-> ("comment" :> Text(p)), co |-> Order(S, p, stray), attrs |-> IF p = A THEN ("x" :> NoAttr) ELSE <<>>]],
                     pos |-> IF A \in S THEN (A :> "1") ELSE <<>>, col |-> IF AB \in S THEN (AB :> "1") ELSE <<>>, rest |-> <<>>]
Subsets == {S \in SUBSET Pool : S # {} /\ Cardinality(S) <= 3}
Init == /\ \E S \in Subsets, stray \in BOOLEAN : (stray => A \in S) /\ L = Loaded(S, stray)
        /\ top \in {{}, {A}, {AB, B}} /\ init = <<L, top>> /\ h = <<>>
There == DOMAIN L.nodes \cup top
\* a name is free if nothing is there, nor where what moves along would go
Free(p, q) == q \notin There /\ \A x \in Below(L, p) : ReplaceAncestor(x, p, q) \notin There
Settled(p, par, n) == LET q == Append(par, n) IN
  IF Free(p, q) THEN q ELSE IF Free(p, Append(par, n \o "2")) THEN Append(par, n \o "2") ELSE Append(par, n \o "3")
None == <<"-">>
Blank == [do |-> "", p |-> <<>>, parent |-> <<>>, ps |-> <<>>, name |-> "", desc |-> FALSE, a |-> "", b |-> "", v |-> "", k |-> "", co |-> <<>>]
Do(o, L2) == L' = L2 /\ h' = Append(h, o) /\ UNCHANGED <<top, init>>
Deep(p) == Len(p) <= 3
AddStep == \E par \in DOMAIN L.nodes \cup {World}, n \in {"a", "b"} :
             LET q == Settled(None, par, n) IN Deep(q) /\ Do([Blank EXCEPT !.do = "add", !.parent = par, !.name = n], AddNode(L, q, Fresh("new")))
DeleteStep == \E p \in DOMAIN L.nodes, d \in BOOLEAN : Do([Blank EXCEPT !.do = "delete", !.p = p, !.desc = d], DeleteNode(L, p, d))
RenameStep == \E p \in DOMAIN L.nodes, n \in {"a", "b", "z"} : n # NameOf(p) /\
                Do([Blank EXCEPT !.do = "rename", !.p = p, !.name = n], RenameNode(L, p, Settled(p, ParentOf(p), n)))
ReparentStep == \E p \in DOMAIN L.nodes, par \in DOMAIN L.nodes \cup {World, AB} :
                  /\ par # ParentOf(p) /\ ~IsPrefixOf(p, par)
                  /\ LET q == Settled(p, par, NameOf(p)) IN
                       Deep(q) /\ Do([Blank EXCEPT !.do = "parent", !.p = p, !.ps = <<p>>, !.parent = par], ReparentNode(L, p, q))
DuplicateStep == \E p \in DOMAIN L.nodes, d \in BOOLEAN :
                   LET L1 == AddAll(L, Missing(L, p), Fresh("null"))
                       q == IF Append(ParentOf(p), NameOf(p) \o "2") \in There THEN Append(ParentOf(p), NameOf(p) \o "3") ELSE Append(ParentOf(p), NameOf(p) \o "2") IN
                     Do([Blank EXCEPT !.do = "duplicate", !.p = p, !.desc = d], DuplicateNode(L, p, q, L.nodes[p], d, Fresh("null")))
AttrStep == \E p \in DOMAIN L.nodes :
              \/ Do([Blank EXCEPT !.do = "setattr", !.p = p, !.a = "x", !.v = "1"], SetAttr(L, p, "x", NoAttr))
              \/ "x" \in DOMAIN L.nodes[p].attrs /\ Do([Blank EXCEPT !.do = "delattr", !.p = p, !.a = "x"], DelAttr(L, p, "x"))
              \/ "x" \in DOMAIN L.nodes[p].attrs /\ Do([Blank EXCEPT !.do = "renattr", !.p = p, !.a = "x", !.b = "m1"], RenAttr(L, p, "x", "m1"))
OrderStep == \E p \in DOMAIN L.nodes, co \in {<<>>, <<"b", "a">>} : Do([Blank EXCEPT !.do = "order", !.p = p, !.co = co], SetCo(L, p, co))
Next == Len(h) < MaxSteps /\ (AddStep \/ DeleteStep \/ RenameStep \/ ReparentStep \/ DuplicateStep \/ AttrStep \/ OrderStep)
Spec == Init /\ [][Next]_vars

Consistent == WellFormed(L) /\ World \notin DOMAIN L.nodes
\* looks belong to nodes that are there
Looks == DOMAIN L.col \subseteq DOMAIN L.nodes
Payload(M, S) == {<<M.nodes[x].f, M.nodes[x].attrs>> : x \in S}
Did == h'[Len(h')]
Moved == [][Did.do \in {"rename", "parent"} =>
             /\ Cardinality(DOMAIN L'.nodes) = Cardinality(DOMAIN L.nodes)
             /\ Payload(L', DOMAIN L'.nodes) = Payload(L, DOMAIN L.nodes)
             \* what is not at or below the node stays where it is
             /\ \A x \in DOMAIN L.nodes : IsPrefixOf(Did.p, x) \/ (x \in DOMAIN L'.nodes /\ L'.nodes[x].f = L.nodes[x].f)
             /\ \A x \in DOMAIN L'.nodes : ~IsPrefixOf(Did.p, x)
             /\ Cardinality(DOMAIN L'.col) = Cardinality(DOMAIN L.col)
             /\ Cardinality(DOMAIN L'.pos) = Cardinality(DOMAIN L.pos)
             /\ (Did.do = "rename" /\ Did.p \in DOMAIN L.pos) => Did.p \notin DOMAIN L'.pos]_vars
Gone == [][Did.do = "delete" =>
             /\ DOMAIN L'.nodes = DOMAIN L.nodes \ ({Did.p} \cup (IF Did.desc THEN Below(L, Did.p) ELSE {}))
             /\ \A x \in DOMAIN L'.nodes : L'.nodes[x].f = L.nodes[x].f /\ L'.nodes[x].attrs = L.nodes[x].attrs
             /\ (Has(L', ParentOf(Did.p)) /\ (Did.desc \/ Below(L, Did.p) = {})) => NameOf(Did.p) \notin Elems(CoOf(L', ParentOf(Did.p)))]_vars
Copied == [][Did.do = "duplicate" =>
             /\ DOMAIN L.nodes \subseteq DOMAIN L'.nodes
             /\ \A x \in DOMAIN L.nodes : L'.nodes[x].f = L.nodes[x].f /\ L'.nodes[x].attrs = L.nodes[x].attrs
             /\ Cardinality(DOMAIN L'.nodes) = Cardinality(DOMAIN L.nodes) + 1 + Len(Missing(L, Did.p)) + (IF Did.desc THEN Cardinality(Below(L, Did.p)) ELSE 0)]_vars
\* renaming there and back is nothing
Back == \A p \in DOMAIN L.nodes : LET q == Settled(p, ParentOf(p), "y") IN
          "y" \in Elems(CoOf(L, ParentOf(p))) \/ LET M == RenameNode(RenameNode(L, p, q), q, p) IN M.nodes = L.nodes /\ (\A x \in DOMAIN M.col : M.col[x] = L.col[x])
Show == IF Len(h) = MaxSteps THEN PrintT("@@SCN" \o ToJson([nodes |-> [p \in {Text(x) : x \in DOMAIN init[1].nodes} |-> init[1].nodes[CHOOSE x \in DOMAIN init[1].nodes : Text(x) = p].co],
                                                            top |-> {Text(x) : x \in init[2]}, edits |-> h])) ELSE TRUE
=============================================================================
