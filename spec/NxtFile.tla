------------------------------ MODULE NxtFile -------------------------------
(* A layer and the file it is saved to.  Values are JSON texts in a canonical *)
(* form; "absent" where there is none.                                        *)
(* file:  [top: key -> text, meta: key -> text, nodes: path ->                *)
(*           [f: field -> text, co: seq of names, attrs: name -> [v, t, c]]]  *)
(* layer: the same, as the layer in memory shows itself                       *)
EXTENDS Naturals, Sequences, FiniteSets
Absent == "absent"
Fields == {"start_point", "instance", "execute_in", "enabled", "comment", "code"}
TopKeys == {"alias", "color", "mute", "solo", "lock", "references", "comp_overrides"}
Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
\* no value, and the values that state nothing
Canon(v) == IF v \in {Absent, "null", "[]"} THEN Absent ELSE v
Word(v) == IF v \in {Absent, "null"} THEN Absent ELSE v
TopDefault(k, name) ==
  CASE k = "alias" -> name [] k = "color" -> Absent [] k \in {"mute", "solo", "lock"} -> "false"
    [] k = "references" -> Absent [] k = "comp_overrides" -> Absent
Empty(v) == IF v \in {Absent, "null", "[]", "{}"} THEN Absent ELSE v
TopVal(top, k, name) ==
  LET v == Get(top, k, Absent) IN
    IF k \in {"references", "comp_overrides"} THEN Empty(v)
    ELSE IF v = Absent \/ (v = "null" /\ k \in {"mute", "solo", "lock"}) THEN TopDefault(k, name)
    ELSE IF v = "null" THEN Absent ELSE v
SameTop(a, b, name) == \A k \in TopKeys : TopVal(a, k, name) = TopVal(b, k, name)
SameMeta(a, b) == \A k \in DOMAIN a \cup DOMAIN b : Empty(Get(a, k, Absent)) = Empty(Get(b, k, Absent))
NoAttr == [v |-> Absent, t |-> Absent, c |-> Absent]
SameAttr(x, y) == Canon(x.v) = Canon(y.v) /\ Word(x.t) = Word(y.t) /\ Word(x.c) = Word(y.c)
SameAttrs(a, b) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : SameAttr(a[n], b[n])
WorldFields == {"comment", "code"}
SameFields(p, a, b) == \A k \in (IF p = "/" THEN WorldFields ELSE Fields) : Canon(Get(a, k, Absent)) = Canon(Get(b, k, Absent))
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Dedupe(_)
Dedupe(s) == IF s = <<>> THEN <<>>
             ELSE LET r == Dedupe(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Elems(r) THEN r ELSE Append(r, s[Len(s)])
\* what loading makes of a child order: without repetitions, and the children
\* there are that it does not name after those it does
LoadedOrder(co, obs, kids) ==
  LET d == Dedupe(co) IN
    /\ Len(obs) >= Len(d) /\ SubSeq(obs, 1, Len(d)) = d
    /\ LET rest == SubSeq(obs, Len(d) + 1, Len(obs)) IN
         Elems(rest) = kids \ Elems(d) /\ Cardinality(Elems(rest)) = Len(rest)
\* the ways two nodes can differ
Differ(p, a, b) ==
  (IF SameFields(p, a.f, b.f) THEN {} ELSE {"Fields"}) \cup (IF SameAttrs(a.attrs, b.attrs) THEN {} ELSE {"Attributes"})
Content(a, b, name) ==
  (IF SameTop(a.top, b.top, name) THEN {} ELSE {"LayerSettings"})
  \cup (IF SameMeta(a.meta, b.meta) THEN {} ELSE {"MetaData"})
  \cup (IF DOMAIN a.nodes # DOMAIN b.nodes THEN {"NodeSet"} ELSE UNION {Differ(p, a.nodes[p], b.nodes[p]) : p \in DOMAIN a.nodes})
Orders(a, b) == IF DOMAIN a.nodes # DOMAIN b.nodes \/ \A p \in DOMAIN a.nodes \ {"/"} : a.nodes[p].co = b.nodes[p].co THEN {} ELSE {"ChildOrder"}
\* kids: path -> names of the children defined in the same file
LoadOrders(f, x, kids) ==
  IF DOMAIN f.nodes # DOMAIN x.nodes \/ \A p \in DOMAIN f.nodes \ {"/"} : LoadedOrder(f.nodes[p].co, x.nodes[p].co, kids[p])
  THEN {} ELSE {"ChildOrder"}
\* a layer nobody named is called after the file it is saved to
Named(x, stem) == IF stem # "" /\ Get(x.top, "alias", Absent) = "\"untitled\"" THEN [x EXCEPT !.top["alias"] = stem] ELSE x
\* clauses that fail when layer x was loaded from file f, called name
Load(f, x, name, kids) == Content(f, x, name) \cup LoadOrders(f, x, kids)
\* ... when layer x was written to file f
Save(x, f, name) == Content(x, f, name) \cup Orders(x, f)
=============================================================================
