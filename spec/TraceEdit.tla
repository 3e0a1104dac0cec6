----------------------------- MODULE TraceEdit ------------------------------
(* Recorded edit histories against NxtEdit.                                   *)
EXTENDS NxtEdit, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, layers
vars == <<i, l, layers>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Fn(s) == [k \in {s[j].k : j \in 1..Len(s)} |-> s[CHOOSE j \in 1..Len(s) : s[j].k = k].v]
PFn(s) == [k \in {s[j].p : j \in 1..Len(s)} |-> s[CHOOSE j \in 1..Len(s) : s[j].p = k].v]
AttrFn(s) == [n \in {s[j].n : j \in 1..Len(s)} |-> LET a == s[CHOOSE j \in 1..Len(s) : s[j].n = n] IN [v |-> a.v, t |-> a.t, c |-> a.c]]
ToL(o) == [nodes |-> [p \in {o.nodes[j].p : j \in 1..Len(o.nodes)} |->
              LET n == o.nodes[CHOOSE j \in 1..Len(o.nodes) : o.nodes[j].p = p] IN [f |-> Fn(n.f), co |-> n.co, attrs |-> AttrFn(n.attrs)]],
           pos |-> PFn(o.pos), col |-> PFn(o.col), rest |-> <<o.top, o.meta>>]
ToLs(s) == [k \in 1..Len(s) |-> ToL(s[k])]

(* --- lookups --------------------------------------------------------------- *)
NodeLookups(n, o) ==
  LET there == {o.nodes[j].p : j \in 1..Len(o.nodes)}
      kids == {Text(x) : x \in {y \in there : y # World /\ ParentOf(y) = n.p}} IN
    Chk("OwnPath", n.path = Text(n.p) /\ (n.p = World \/ (n.own[1] = NameOf(n.p) /\ n.own[2] = Text(ParentOf(n.p)))))
    \cup Chk("LegalNames", \A j \in 1..Len(n.p) : LegalName(n.p[j]))
    \cup Chk("ChildrenLookup", n.p = World \/ (Elems(n.kids) = kids /\ Len(n.kids) = Cardinality(kids)))
Lookups(o) ==
  LET texts == {Text(o.nodes[j].p) : j \in 1..Len(o.nodes)}
      same(s) == Elems(s) = texts /\ Len(s) = Cardinality(texts) IN
    Chk("LookupByNode", same(o.bynode)) \cup Chk("NodeList", same(o.spec))
    \cup Chk("NodeTable", Elems(o.table) \ {"/"} = texts \ {"/"} /\ Len(o.table) = Cardinality(Elems(o.table)))
    \cup UNION {NodeLookups(o.nodes[j], o) : j \in 1..Len(o.nodes)}
    \cup Chk("ChildrenLookup", \A j \in 1..Len(o.implied) : LET n == o.implied[j] IN
            LET kids == {Text(x) : x \in {y \in {o.nodes[k].p : k \in 1..Len(o.nodes)} : y # World /\ ParentOf(y) = n.p}} IN
              Elems(n.kids) = kids /\ Len(n.kids) = Cardinality(kids))

(* --- expected layers ------------------------------------------------------- *)
Empty0 == [f |-> <<>>, co |-> <<>>, attrs |-> <<>>]
TextOf(v) == IF v = "\"\"" THEN "null" ELSE v
DataAttrs(d) == [n \in {d[j].n : j \in 1..Len(d)} |-> [v |-> d[CHOOSE j \in 1..Len(d) : d[j].n = n].j, t |-> Absent, c |-> Absent]]
AddedNode(o) == [Empty0 EXCEPT !.f = IF o.jinst = Absent THEN @ ELSE Put(@, "instance", o.jinst), !.attrs = DataAttrs(o.data)]
FieldKey(k) == CASE k = "start" -> "start_point" [] k = "exec" -> "execute_in" [] k = "inst" -> "instance" [] OTHER -> k
Q(o) == o.new[1]
\* the duplicate itself comes after the ancestors that had to be created
DupQ(L, o) == o.new[Len(Missing(L, o.p)) + 1]
Expected(o) ==
  LET L == layers[o.l + 1] IN
  CASE o.do = "add" -> AddNode(L, Q(o), AddedNode(o))
    [] o.do = "delete" -> DeleteNode(L, o.p, o.desc)
    [] o.do = "rename" -> RenameNode(L, o.p, Q(o))
    [] o.do = "parent" -> ReparentAll(L, o.ps, o.new)
    [] o.do = "duplicate" -> DuplicateNode(L, o.p, DupQ(L, o), layers[o.from + 1].nodes[o.p], o.desc, Empty0)
    [] o.do = "setattr" ->
         LET old == L.nodes[o.p].attrs
             a == IF o.a \in DOMAIN old THEN old[o.a] ELSE NoAttr IN
           SetAttr(L, o.p, o.a, IF o.sub = "value" THEN [a EXCEPT !.v = TextOf(o.jv), !.t = o.typ] ELSE [a EXCEPT !.c = TextOf(o.jv)])
    [] o.do = "addattr" -> SetAttr(L, o.p, o.a, [NoAttr EXCEPT !.v = o.jv])
    [] o.do = "delattr" -> DelAttr(L, o.p, o.a)
    [] o.do = "renattr" -> RenAttr(L, o.p, o.a, o.b)
    [] o.do = "set" -> SetField(L, o.p, FieldKey(o.k), o.v)
    [] o.do = "order" -> SetCo(L, o.p, o.co)

(* --- comparing ------------------------------------------------------------- *)
Void(v) == IF v \in {Absent, "null", "[]", "\"\""} THEN Absent ELSE v
SameF(p, a, b) == \A k \in (IF p = World THEN WorldFields ELSE Fields) : Void(Get(a, k, Absent)) = Void(Get(b, k, Absent))
\* a value is typed when it is set again; whether it is when it is new is open
SameA(a, b, o) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a :
                    /\ Void(a[n].v) = Void(b[n].v) /\ Void(a[n].c) = Void(b[n].c)
                    /\ (Word(a[n].t) = Word(b[n].t) \/ (o.do = "setattr" /\ n = o.a))
SameKV(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]
\* order of a node: exactly as expected; a duplicate whose order left out some
\* of its children may name them after those it does; a node above a path that
\* was only implied may or may not give up that path's place
NearestAbove(L, p) == LET s == SelectSeq(Ancestors(p), LAMBDA x : Has(L, x)) IN IF s = <<>> THEN World ELSE s[1]
CoOK(x, p, e, o, before, gone) ==
  \/ e = x
  \* with the composite shown, a node that instances one that lost a child
  \* drops that child's name as well
  \/ o.do = "delete" /\ o.comp /\ SelectSeq(e, LAMBDA n : n \notin gone) = SelectSeq(x, LAMBDA n : n \notin gone)
  \/ /\ o.do = "duplicate" /\ o.desc
     /\ LoadedOrder(e, x, {y[Len(p) + 1] : y \in {z \in {o.new[j] : j \in 1..Len(o.new)} : Len(z) = Len(p) + 1 /\ IsAncestor(z, p)}} \cup Elems(e))
  \/ /\ o.do = "parent"
     /\ LET open == {o.ps[j][Len(p) + 1] : j \in {k \in 1..Len(o.ps) : IsAncestor(o.ps[k], p) /\ Len(o.ps[k]) > Len(p) + 1
                                                                       /\ NearestAbove(before, o.ps[k]) = p}} IN
          SelectSeq(e, LAMBDA n : n \notin open) = SelectSeq(x, LAMBDA n : n \notin open)
Compare(E, X, o, before) ==
  LET gone == {NameOf(y) : y \in (DOMAIN before.nodes \ DOMAIN E.nodes) \ {World}} IN
  IF DOMAIN E.nodes # DOMAIN X.nodes THEN {"NodeSet"}
  ELSE Chk("Fields", \A p \in DOMAIN E.nodes : SameF(p, E.nodes[p].f, X.nodes[p].f))
       \cup Chk("Attributes", \A p \in DOMAIN E.nodes : SameA(E.nodes[p].attrs, X.nodes[p].attrs, o))
       \cup Chk("ChildOrder", \A p \in DOMAIN E.nodes \ {World} : CoOK(X.nodes[p].co, p, E.nodes[p].co, o, before, gone))
       \cup Chk("Positions", o.do = "parent" \/ SameKV(E.pos, X.pos))
       \cup Chk("Collapse", LET there == DOMAIN E.nodes \cup DOMAIN before.nodes IN
                             SameKV(Drop(E.col, DOMAIN E.col \ there), Drop(X.col, DOMAIN X.col \ there)))
       \cup Chk("LayerData", E.rest = X.rest)
\* the look of what moved may follow on the top layer
Others(o, X) ==
  Chk("OtherLayersUntouched",
      \A k \in 1..Len(layers) : k = o.l + 1 \/
        (/\ layers[k].nodes = X[k].nodes /\ layers[k].rest = X[k].rest
         /\ IF k = 1 /\ o.do \in {"rename", "parent"}
            THEN LET moved == {o.new[j] : j \in 1..Len(o.new)} \cup {o.p} \cup {o.ps[j] : j \in 1..Len(o.ps)}
                     stay(fn) == {x \in DOMAIN fn : ~\E m \in moved : IsPrefixOf(m, x)} IN
                   /\ SameKV(Drop(layers[k].pos, DOMAIN layers[k].pos \ stay(layers[k].pos)), Drop(X[k].pos, DOMAIN X[k].pos \ stay(X[k].pos)))
                   /\ SameKV(Drop(layers[k].col, DOMAIN layers[k].col \ stay(layers[k].col)), Drop(X[k].col, DOMAIN X[k].col \ stay(X[k].col)))
            ELSE layers[k].pos = X[k].pos /\ layers[k].col = X[k].col))

(* --- names ------------------------------------------------------------------ *)
\* wanted: the path asked for; got: the path given; free: nothing was there
NameOK(o, wanted, got, free, taken) ==
  IF ~o.fix THEN Chk("NameAsAsked", got = wanted)
  ELSE Chk("SameParent", ParentOf(got) = ParentOf(wanted))
       \cup Chk("UniquePath", ~taken)
       \cup Chk("FreeNameKept", ~(free /\ LegalName(NameOf(wanted)) /\ NameOf(wanted) # "__name__") \/ got = wanted)
       \cup Chk("LegalName", LegalName(NameOf(got)))
Names(o) ==
  LET L == layers[o.l + 1] IN
  CASE o.do = "add" -> IF o.name = "" THEN {} ELSE NameOK(o, Append(o.parent, o.name), Q(o), o.free, o.taken[1])
    [] o.do = "rename" -> NameOK(o, Append(ParentOf(o.p), o.name), Q(o), o.free, o.taken[1])
    [] o.do = "parent" -> UNION {NameOK(o, Append(o.parent, NameOf(o.ps[j])), o.new[j], o.free[j], o.taken[j]) : j \in 1..Len(o.ps)}
    [] o.do = "duplicate" -> LET k == Len(Missing(L, o.p)) + 1 IN
                               IF Len(o.new) < k THEN {"DuplicateMade"}
                               ELSE Chk("SameParent", ParentOf(o.new[k]) = ParentOf(o.p)) \cup Chk("UniquePath", ~o.taken[k])
    [] OTHER -> {}
Step(o) ==
  LET bad == Names(o) IN
    IF bad # {} THEN bad
    ELSE LET X == ToLs(o.layers) IN Compare(Expected(o), X[o.l + 1], o, layers[o.l + 1]) \cup Others(o, X)

Init == i \in 1..Len(Cases) /\ l = 0 /\ layers = <<>>
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ l' = l + 1 /\ i' = i
        /\ LET o == Cases[i].ops[l + 1] IN
             /\ layers' = ToLs(o.layers)
             /\ CASE o.op = "load" -> Report(UNION {Lookups(o.layers[k]) : k \in 1..Len(o.layers)})
                  [] o.op = "edit" -> Report(IF o.crash # "" THEN {"NoError"}
                                             ELSE Step(o) \cup UNION {Lookups(o.layers[k]) : k \in 1..Len(o.layers)})
Spec == Init /\ [][Next]_vars
=============================================================================
