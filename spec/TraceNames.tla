----------------------------- MODULE TraceNames -----------------------------
(* Recorded names and attribute edits against NxtNames.                       *)
EXTENDS NxtNames, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, S
vars == <<i, l, S>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
AttrFn(s) == [n \in {s[j].n : j \in 1..Len(s)} |-> LET a == s[CHOOSE j \in 1..Len(s) : s[j].n = n] IN [v |-> a.v, t |-> a.t, c |-> a.c]]
LayerFn(s) == [p \in {s[j].p : j \in 1..Len(s)} |-> AttrFn(s[CHOOSE j \in 1..Len(s) : s[j].p = p].attrs)]
Layers(o) == [k \in 1..Len(o.layers) |-> LayerFn(o.layers[k])]
State(o) == [layers |-> Layers(o), on |-> o.on, comp |-> Elems(o.comp)]
Join(p, n) == IF p = "/" THEN "/" \o n ELSE p \o "/" \o n
Void(v) == IF v \in {Absent, "null", "\"\""} THEN Absent ELSE v
SameX(x, y) == Void(x.v) = Void(y.v) /\ Void(x.t) = Void(y.t) /\ Void(x.c) = Void(y.c)
SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : SameX(f[n], g[n])
\* the type of an attribute whose value is set is open
SameBut(f, g, a) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f :
  Void(f[n].v) = Void(g[n].v) /\ Void(f[n].c) = Void(g[n].c) /\ (n = a \/ Void(f[n].t) = Void(g[n].t))
AttrsAt(k, p) == IF p \in DOMAIN S.layers[k] THEN S.layers[k][p] ELSE <<>>
Here(o) == AttrsAt(o.l + 1, o.p)
\* names below p that are in use
UsedNodes(o, scope) == {n \in {o.out, Legalize(o.a)} : Join(o.p, n) \in scope}
\* what moves takes along what is below it
Under(p, x) == SubSeq(x, 1, Len(p) + 1) = p \o "/"
UsedMoving(o, up, scope) ==
  {n \in {o.out, Legalize(o.a)} :
     LET q == Join(Text(up), n) IN
       q \in scope \/ \E x \in DOMAIN S.layers[o.l + 1] : Len(x) > Len(o.p) /\ Under(o.p, x) /\ (q \o SubSeq(x, Len(o.p) + 1, Len(x))) \in scope}
OwnNames(o) == DOMAIN Here(o)
ActiveNames(o) == UNION {IF S.on[k] THEN DOMAIN AttrsAt(k, o.p) ELSE {} : k \in 1..Len(S.layers)}
AnyNames(o) == UNION {DOMAIN AttrsAt(k, o.p) : k \in 1..Len(S.layers)}
Res(o) == Elems(o.reserved)
\* a name that only a layer which is switched off has may be given up or not
GoodAttr(o, asked, got, used) ==
  LET f == GoodName(asked, got, used, Res(o)) IN IF Legalize(asked) \in AnyNames(o) THEN f \ {"FreeNameKept"} ELSE f
Untouched(o, X) == /\ DOMAIN X.layers = DOMAIN S.layers
                   /\ \A k \in 1..Len(S.layers) : DOMAIN X.layers[k] = DOMAIN S.layers[k]
                   /\ \A k \in 1..Len(S.layers) : \A p \in DOMAIN S.layers[k] : (k = o.l + 1 /\ p = o.p) \/ S.layers[k][p] = X.layers[k][p]
Same(o, X) == Untouched(o, X) /\ Here(o) = X.layers[o.l + 1][o.p]
Step(o, X) ==
  LET L == S.layers[o.l + 1]
      now == IF o.p \in DOMAIN X.layers[o.l + 1] THEN X.layers[o.l + 1][o.p] ELSE <<>>
      x == [v |-> o.v, t |-> o.t, c |-> o.c] IN
  CASE o.do = "legal" -> Chk("Legal", Lawful(o.out)) \cup Chk("Legalized", ~Plain(o.a) \/ o.out = Legalize(o.a)) \cup Chk("NothingChanged", X = S)
    [] o.do = "nodename" ->
         LET scope == CASE o.where = "layer" -> DOMAIN L [] o.where = "comp" -> S.comp [] OTHER -> S.comp \cup DOMAIN L IN
           (IF o.none THEN Chk("Legal", Lawful(o.out)) \cup Chk("Unique", Join(o.p, o.out) \notin scope)
            ELSE GoodName(o.a, o.out, UsedNodes(o, scope), NodeReserved)) \cup Chk("NothingChanged", X = S)
    [] o.do = "attrname" ->
         LET used == IF o.where = "comp" THEN ActiveNames(o) ELSE OwnNames(o) IN
           (IF o.none THEN Chk("Legal", Lawful(o.out)) \cup Chk("Unique", o.out \notin used \cup Res(o)) ELSE GoodAttr(o, o.a, o.out, used))
           \cup Chk("NothingChanged", X = S)
    [] o.do = "addnode" -> GoodName(o.a, o.out, UsedNodes(o, S.comp \cup DOMAIN L), NodeReserved)
    [] o.do = "rename" ->
         GoodName(o.a, o.out, UsedMoving(o, ParentOf(o.pp), S.comp \cup DOMAIN L), NodeReserved)
    [] o.do = "parent" -> GoodName(o.a, o.out, UsedMoving(o, o.upp, S.comp \cup DOMAIN L), NodeReserved)
    [] o.do = "duplicate" ->
         GoodName(o.a, o.out, {n \in {o.out, o.a} : Join(Text(ParentOf(o.pp)), n) \in S.comp \cup DOMAIN L}, NodeReserved)
    [] o.do = "add" -> GoodAttr(o, o.a, o.out, OwnNames(o)) \cup Chk("OthersUntouched", Untouched(o, X))
                       \cup Chk("AttributeAdded", SameBut(AddA(Here(o), o.out, x), now, IF o.t = Absent THEN o.out ELSE ""))
    [] o.do = "ren" ->
         IF o.a \notin DOMAIN Here(o) THEN Chk("NothingChanged", Same(o, X))
         ELSE IF o.a = o.b /\ Same(o, X) THEN {}
         ELSE LET new == DOMAIN now \ DOMAIN Here(o) IN
                IF Cardinality(new) # 1 THEN {"OneNewName"}
                ELSE LET n == CHOOSE n \in new : TRUE IN
                       GoodAttr(o, o.b, n, OwnNames(o)) \cup Chk("CarriedOver", SameFn(RenA(Here(o), o.a, n), now)) \cup Chk("OthersUntouched", Untouched(o, X))
    [] o.do = "del" -> Chk("OnlyItDeleted", SameFn(DelA(Here(o), o.a), now)) \cup Chk("OthersUntouched", Untouched(o, X))
    [] o.do = "set" ->
         Chk("OthersUntouched", Untouched(o, X))
         \cup (IF o.a \in DOMAIN Here(o) \/ o.a \notin Res(o) \cup AnyNames(o)
               THEN Chk("OnlyItSet", SameBut(SetA(Here(o), o.a, x), now, IF o.t = Absent THEN o.a ELSE "")) ELSE {})
Init == i \in 1..Len(Cases) /\ l = 0 /\ S = <<>>
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ l' = l + 1 /\ i' = i
        /\ LET o == Cases[i].ops[l + 1] IN
             IF o.op = "saved"
             THEN /\ UNCHANGED S
                  /\ Report(IF o.crash # "" THEN {"NoError"}
                            ELSE Chk("SavedAttributes", \A k \in 1..Len(S.layers) : LET f == LayerFn(o.layers[k]) IN
                                       /\ DOMAIN f \cup {"/"} = DOMAIN S.layers[k] \cup {"/"}
                                       /\ \A p \in DOMAIN f \cap DOMAIN S.layers[k] : SameFn(f[p], S.layers[k][p])))
             ELSE /\ S' = State(o)
                  /\ Report(IF o.crash # "" THEN {"NoError"} ELSE IF o.op = "load" THEN {} ELSE Step(o, S'))
Spec == Init /\ [][Next]_vars
=============================================================================
