----------------------------- MODULE TraceComp -----------------------------
(* Composites built by the implementation, against NxtComp.                  *)
(* A case: ops[1] is a build (layers with flags), the others are what was    *)
(* read from that composite.                                                  *)
EXTENDS NxtComp, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, ls, cs, open
vars == <<i, l, ls, cs, open>>
Chk(name, ok) == IF ok THEN {} ELSE {name}

EncInst(s) == CASE s.k = "none" -> None [] s.k = "empty" -> "" [] OTHER -> Text(s.s)

\* composites the model allows that have exactly the observed nodes
PathOf(c, t) == CHOOSE p \in c.maybe : Text(p) = t
Matching(o, comps) ==
  UNION {LET real == {Text(p) : p \in c.E}
             all == {Text(p) : p \in c.maybe}
             seen == Elems(o.nodes)
         IN IF ~(real \subseteq seen /\ seen \subseteq all) THEN {}
            ELSE IF real = seen THEN {c}
            ELSE LET x == ComposeExtra(ls, c.honoured, {PathOf(c, t) : t \in seen \ real})
                 IN IF x.ok THEN {x} ELSE {}
         : c \in comps}
\* Instances that disagree about who depends on whom: whichever are refused,
\* what the others bring about is there.
Disputed(o) == LET D == Disputable(ls)
                   c == ComposeWith(ls, Candidates(ls) \ D) IN
               /\ D /= {}
               /\ {Text(p) : p \in c.E} \subseteq Elems(o.nodes)
SetFails(o) ==
  IF o.crash /= "" THEN {"BuildCompletes"}
  ELSE IF \A c \in cs : ~c.consistent THEN {}
  ELSE Chk("NodeSet", Matching(o, cs) /= {} \/ Disputed(o))
       \cup Chk("NoFailure", o.failure = "" \/ open \/ \E c \in cs : ~c.consistent)
       \cup Chk("NoRepeatedPath", Len(o.nodes) = Cardinality(Elems(o.nodes)))

SrcText(c, p) == IF c.want[p] = NoPath THEN None ELSE Text(c.want[p])
\* --- one node ---------------------------------------------------------------
AttrFails(c, p, a) ==
  LET ds == Defs(ls, c, p, a.n) IN
  IF ds = <<>> THEN {"AttrComesFromNowhere"}
  ELSE
  LET d == ds[1]
      r == DefRec(ls, d, a.n)
      T == {k \in 1..Len(ds) : DefRec(ls, ds[k], a.n).t /= None}
      C == {k \in 1..Len(ds) : DefRec(ls, ds[k], a.n).c /= None}
      FirstOf(S) == CHOOSE k \in S : \A j \in S : k <= j
      local == d[1] = p
      nm(s) == IF local THEN s ELSE "Inherited" \o s
  IN Chk(nm("AttrValue"), a.v = r.v)
     \cup Chk(nm("AttrSource"), a.layer = ls[d[2]].id /\ a.path = Text(d[1]))
     \cup Chk(nm("AttrType"), a.t = IF T = {} THEN None ELSE DefRec(ls, ds[FirstOf(T)], a.n).t)
     \cup Chk(nm("AttrComment"), a.c = IF C = {} THEN None ELSE DefRec(ls, ds[FirstOf(C)], a.n).c)
     \cup Chk("History", a.hist = "none" \/
         LET es == [k \in 1..Len(ds) |-> <<ls[ds[k][2]].id, Text(ds[k][1]), DefRec(ls, ds[k], a.n).v>>]
             dd == SelectSeq(es, LAMBDA e : e[3] /= None)
             ob == [k \in 1..Len(a.histl) |-> <<a.histl[k][1], a.histl[k][2], a.histl[k][3]>>]
             plain == \A k \in 1..Len(c.lin[p]) : c.src[c.lin[p][k]] = NoPath
         IN IF plain THEN ob = dd
            ELSE /\ Elems(ob) = Elems(dd)
                 /\ (dd /= <<>> /\ es[1] = dd[1]) => ob[1] = dd[1])

NodeFails(c, o) ==
  LET p == o.p
      names == AttrNames(ls, c, p)
      L0 == IF p \in Defined(ls) THEN ls[Holders(ls, p)[1]].id ELSE None
  IN IF p \notin c.E THEN {"NodeNotExpected"}
     ELSE
     Chk("AttrNames", {o.attrs[k].n : k \in 1..Len(o.attrs)} = names)
     \cup UNION {AttrFails(c, p, o.attrs[k]) : k \in {k \in 1..Len(o.attrs) : o.attrs[k].n \in names}}
     \cup Chk(IF Own(ls, p, "code") /= None \/ c.src[p] = NoPath THEN "Code" ELSE "InstanceCode", o.code = Passed(ls, c, p, "code"))
     \cup Chk(IF Own(ls, p, "comment") /= None \/ c.src[p] = NoPath THEN "Comment" ELSE "InstanceComment", o.comment = Passed(ls, c, p, "comment"))
     \cup Chk(IF Own(ls, p, "enabled") /= None \/ c.src[p] = NoPath THEN "Enabled" ELSE "InstanceEnabled", o.enabled = Passed(ls, c, p, "enabled"))
     \cup Chk("ExecIn", o.exec = Own(ls, p, "exec"))
     \cup Chk("StartPoint", o.start = Own(ls, p, "start"))
     \cup Chk("OpinionSource",
              /\ Own(ls, p, "code") = None \/ o.codesrc = <<OwnLayer(ls, p, "code"), Text(p)>>
              /\ Own(ls, p, "comment") = None \/ o.commentsrc = <<OwnLayer(ls, p, "comment"), Text(p)>>
              /\ Own(ls, p, "enabled") = None \/ o.enabledsrc = <<OwnLayer(ls, p, "enabled"), Text(p)>>
              /\ Own(ls, p, "exec") = None \/ o.execsrc = <<OwnLayer(ls, p, "exec"), Text(p)>>
              /\ Own(ls, p, "start") = None \/ o.startsrc = <<OwnLayer(ls, p, "start"), Text(p)>>
              /\ InstLayer(ls, p) = 0 \/ o.instsrc = <<ls[InstLayer(ls, p)].id, Text(p)>>)
     \cup Chk("NodeLayer", L0 = None \/ o.layer = L0)
     \cup Chk("IsProxy", o.proxy = (p \notin Defined(ls)))
     \cup (LET st == Stated(ls, p) IN
           CASE st.k = "none" -> Chk("MirroredInstance", o.inst = SrcText(c, p))
             [] st.k = "empty" -> Chk("ClearedInstance", o.inst = "")
             [] p \in c.honoured -> Chk("StatedInstance", o.inst = Text(st.s))
             [] OTHER -> {})
\* --- children -----------------------------------------------------------------
PathsOf(ps) == {Text(q) : q \in ps}
\* A node is a child of its nearest existing ancestor; only the world has
\* just the nodes directly below it.
KidsOf(c, p) == IF p = World \/ p \notin c.E THEN Kids(c, p) \ {p}
                ELSE {q \in c.E : ParentIn(c.E, q) = p}
RECURSIVE Below(_, _)
Below(c, S) == LET n == S \cup UNION {KidsOf(c, q) : q \in S} IN IF n = S THEN S ELSE Below(c, n)
KidFails(c, o) ==
  LET p == o.p
      ks == KidsOf(c, p)
      want == PathsOf(ks)
      names == {NameOf(q) : q \in ks}
      Form(nm, s) == Chk(nm, Elems(s) = want) \cup Chk(nm \o "Once", Len(s) = Cardinality(Elems(s)))
      implied == want \cup {Text(Prefix(q, Len(p) + 1)) : q \in {q \in c.E : Len(q) > Len(p) /\ IsPrefixOf(p, q)}}
      desc == {Text(q) : q \in {q \in c.E : Len(q) > Len(p) /\ IsPrefixOf(p, q)}}
      chain == PathsOf(Below(c, ks))
      dwant == IF p = World THEN desc ELSE chain
  IN Form("ChildPaths", o.paths) \cup Form("ChildNodes", o.nodes) \cup Form("ChildTable", o.table)
     \cup Chk("ChildNames", Elems(o.names) = names /\ Len(o.names) = Cardinality(names))
     \cup Chk("ChildBool", o.bool = (want /= {}))
     \cup Chk("ImpliedChildren", Elems(o.implied) = implied /\ Len(o.implied) = Cardinality(implied))
     \cup Chk("Descendants", Elems(o.desc) = dwant /\ Len(o.desc) = Cardinality(dwant))
     \cup Chk("DescendantNodes", Elems(o.descnodes) = dwant /\ Len(o.descnodes) = Cardinality(dwant))
     \cup Chk("DescendantTable", Elems(o.desctable) = dwant /\ Len(o.desctable) = Cardinality(dwant))
     \cup Chk("StableReads", o.again)
     \cup (IF p \notin c.E THEN {} ELSE
        Chk("Ancestors", Elems(o.ancestors) = {Text(a) : a \in {a \in c.E : a /= World /\ IsAncestor(p, a)}}
                         /\ Len(o.ancestors) = Cardinality(Elems(o.ancestors)))
        \cup (IF p = World THEN {} ELSE
        Form("OrderedPaths", o.opaths) \cup Form("OrderedNodes", o.onodes) \cup Form("OrderedTable", o.otable)
        \cup Chk("OrderedDescendants", Elems(o.odesc) = chain /\ Len(o.odesc) = Cardinality(chain))
        \cup (LET co == o.co IN
          Chk("OrderOnce", Len(co) = Cardinality(Elems(co)))
          \cup Chk("OrderComplete", AllOrdered(ls, p) \subseteq Elems(co))
          \cup Chk("OrderInvents", Elems(co) \subseteq AllOrdered(ls, p)
                     \cup {NameOf(q) : q \in {q \in c.E \cup ImpliedBy(c.E) : ParentOf(q) = p}}
                     \cup (IF c.src[p] = NoPath THEN {} ELSE Elems(o.srcco)))
          \cup Chk("StrongestOrderKept", LET f == FirstOrder(ls, p) IN Filter(co, Elems(f)) = f)
          \cup Chk("SourceOrderMerged", c.src[p] = NoPath \/ Elems(o.srcco) \subseteq Elems(co))
          \cup Chk("SourceOrderKept", c.src[p] = NoPath \/ AllOrdered(ls, p) /= {}
                     \/ Filter(co, Elems(o.srcco)) = o.srcco)
          \cup Chk("OrderedForm",
                LET direct == {NameOf(q) : q \in {q \in ks : ParentOf(q) = p}}
                    named == Filter(co, direct)
                    seen == SelectSeq(o.opaths, LAMBDA t : t \in {Text(Append(p, m)) : m \in Elems(named)})
                IN seen = [k \in 1..Len(named) |-> Text(Append(p, named[k]))])
          \cup Chk("OrderedFormsAgree", o.opaths = o.onodes /\ o.opaths = o.otable))))
\* --- execution order -------------------------------------------------------------
\* o.tree: sequence of <<path text, ordered children>> as observed (judged above)
KidsSeq(o, t) == LET S == {k \in 1..Len(o.tree) : o.tree[k].p = t} IN
                 IF S = {} THEN <<>> ELSE o.tree[CHOOSE k \in S : TRUE].kids
IsOff(o, t) == t \in Elems(o.off)
RECURSIVE Walk(_, _, _)
Walk(o, q, skipoff) ==   \* q: worklist of texts
  IF q = <<>> THEN <<>>
  ELSE LET h == Head(q) IN
    IF skipoff /\ IsOff(o, h) THEN Walk(o, Tail(q), skipoff)
    ELSE <<h>> \o Walk(o, KidsSeq(o, h) \o Tail(q), skipoff)
Chains0(o, cur, seen) == {o.roots[k].p : k \in {k \in 1..Len(o.roots) : o.roots[k].exec = cur /\ o.roots[k].p \notin seen}}
RECURSIVE Chains(_, _)
Chains(o, ch) == LET nx == Chains0(o, ch[Len(ch)], Elems(ch)) IN
  IF nx = {} THEN {ch} ELSE UNION {Chains(o, Append(ch, r)) : r \in nx}
RECURSIVE CatWalk(_, _)
CatWalk(o, rs) == IF rs = <<>> THEN <<>> ELSE Walk(o, <<Head(rs)>>, TRUE) \o CatWalk(o, Tail(rs))
\* remaining part of the first root's tree from the start on
FromStart(o) ==
  LET full == Walk(o, <<o.root>>, FALSE)
      at == CHOOSE k \in 1..Len(full) : full[k] = o.start
      live == Elems(Walk(o, <<o.root>>, TRUE))
      rest == SubSeq(full, at, Len(full))
  IN SelectSeq(rest, LAMBDA t : t \in live)
ExecFails(c, o) ==
  LET ch == Chains(o, <<o.root>>)
      real == {Text(q) : q \in c.E}
      want == {Filter(FromStart(o) \o CatWalk(o, Tail(x)), real) : x \in ch}
  IN IF o.crash /= "" THEN {"ExecOrderTerminates"}
     ELSE Chk("ExecOrder", o.order \in want
               \* a start below a disabled root: either reading is accepted
               \/ (IsOff(o, o.root) /\ o.start /= o.root))
          \cup Chk("ExecOnce", Len(o.order) = Cardinality(Elems(o.order)))
\* --- impact ------------------------------------------------------------------------
RECURSIVE Instancers(_, _)
Instancers(c, S) == LET n == S \cup {p \in c.E : c.src[p] \in S} IN IF n = S THEN S ELSE Instancers(c, n)
DirtyFails(c, o) ==
  Chk("ImpactComplete", {Text(q) : q \in Instancers(c, {o.p}) \ {o.p}} \subseteq Elems(o.dirty))
  \cup Chk("ImpactSound", \A t \in Elems(o.dirty) : t \notin {Text(q) : q \in c.E}
                             \/ t \in {Text(q) : q \in Instancers(c, {o.p})})

\* An opinion on o.p was changed and everything built anew.
EditFails(c, o) ==
  Chk("EditStaysInside", \A t \in Elems(o.changed) : \E q \in c.E : Text(q) = t /\ o.p \in Elems(c.lin[q]))
  \cup Chk("EditNamedByImpact", Elems(o.changed) \subseteq Elems(o.named))
\* The node as seen from weaker layers, worked out from the full composite.
InferFails(c, o) ==
  IF o.p \notin c.E THEN {"NodeNotExpected"}
  ELSE Chk("LowerInferred", ~o.none)
       \cup Chk("LowerAttrs", o.none \/ {o.attrs[k].n : k \in 1..Len(o.attrs)} = AttrNames(ls, c, o.p))
       \cup Chk("LowerValues", o.none \/ \A k \in 1..Len(o.attrs) :
            LET ds == Defs(ls, c, o.p, o.attrs[k].n) IN ds = <<>> \/ o.attrs[k].v = DefRec(ls, ds[1], o.attrs[k].n).v)

FailsFor(c, o) == CASE o.op = "node" -> NodeFails(c, o)
                    [] o.op = "kids" -> KidFails(c, o)
                    [] o.op = "exec" -> ExecFails(c, o)
                    [] o.op = "dirty" -> DirtyFails(c, o)
                    [] o.op = "edit" -> EditFails(c, o)
                    [] o.op = "inferred" -> InferFails(c, o)
                    [] o.op = "crash" -> {"UnexpectedError"}
Some1(S) == CHOOSE x \in S : TRUE
\* Where instances are disputed only the nodes every resolution agrees about are judged.
Agreed(p) == \A c1 \in cs : \A c2 \in cs :
               p \in c1.E /\ p \in c2.E /\ c1.lin[p] = c2.lin[p] /\ c1.src[p] = c2.src[p]
Fails(o) == IF o.op = "set" THEN SetFails(o)
            ELSE IF cs = {} THEN {}
            ELSE IF open /\ ~(o.op \in {"node"} /\ Agreed(o.p)) /\ o.op # "crash" THEN {}
            ELSE LET fs == {FailsFor(c, o) : c \in cs} IN
                 IF {} \in fs THEN {} ELSE Some1(fs)

Init == i \in 1..Len(Cases) /\ l = 0 /\ ls = <<>> /\ cs = {} /\ open = FALSE
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ l' = l + 1 /\ i' = i
        /\ LET o == Cases[i].ops[l + 1] IN
           IF o.op = "build"
           THEN /\ ls' = IndexAll(ActiveLayers(o.layers))
                /\ cs' = Composites(ls')
                /\ open' = (Disputable(ls') /= {})
           ELSE /\ ls' = ls /\ open' = open
                /\ Report(Fails(o))
                /\ cs' = IF o.op # "set" THEN cs
                         ELSE IF open THEN (IF Cardinality(cs) = 1 \/ \E c \in cs : ~c.consistent THEN {} ELSE cs)
                         ELSE {c \in Matching(o, cs) : c.consistent}
                /\ IF o.op = "set" /\ (cs' = {} \/ open) THEN PrintT("@@SKIP" \o ToJson([case |-> i])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
