------------------------------ MODULE NxtComp ------------------------------
(* Composition of a graph from its layers: which layers are active, which    *)
(* nodes exist, what instances which, and in which order definitions of an   *)
(* attribute are consulted.                                                   *)
(*                                                                            *)
(* A layer:  [id, mute, solo, nodes]  nodes: sequence of node records         *)
(* A node:   [p, inst, code, comment, enabled, exec, start, attrs, co]        *)
(*   inst:   [k |-> "none" | "empty" | "abs" | "rel", s |-> steps]            *)
(*   code, comment, enabled, exec, start: text, "none" for no opinion         *)
(*   attrs:  sequence of [n, v, t, c] (t, c: type and comment, "none")        *)
(*   co:     sequence of names                                                *)
EXTENDS NxtPath

None == "none"
NoPath == <<"(none)">>
RECURSIVE Dedup(_, _)
Dedup(s, seen) == IF s = <<>> THEN <<>>
                  ELSE IF Head(s) \in seen THEN Dedup(Tail(s), seen)
                  ELSE <<Head(s)>> \o Dedup(Tail(s), seen \cup {Head(s)})
Uniq(s) == Dedup(s, {})
Filter(s, S) == SelectSeq(s, LAMBDA x : x \in S)
Elems(s) == {s[i] : i \in 1..Len(s)}

(* ---- which layers contribute (strong to weak in, strong to weak out) ---- *)
ActiveLayers(layers) ==
  LET solo == \E i \in 1..Len(layers) : layers[i].solo IN
    SelectSeq(layers, LAMBDA x : ~x.mute /\ (solo => x.solo))

(* ---- lookup ------------------------------------------------------------ *)
NodePaths(layer) == {layer.nodes[i].p : i \in 1..Len(layer.nodes)}
NodeIdx(layer) == [p \in NodePaths(layer) |-> CHOOSE i \in 1..Len(layer.nodes) : layer.nodes[i].p = p]
\* [id, n: [path -> node record]]
Index(layer) == LET ix == NodeIdx(layer) IN
                [id |-> layer.id, n |-> [p \in DOMAIN ix |-> layer.nodes[ix[p]]]]
IndexAll(layers) == [i \in 1..Len(layers) |-> Index(layers[i])]
Defined(ls) == UNION {DOMAIN ls[i].n : i \in 1..Len(ls)}
Holders(ls, p) == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : p \in DOMAIN ls[i].n)

ImpliedBy(E) == UNION {{Prefix(p, k) : k \in 1..Len(p)} : p \in E}
ChildrenIn(U, p) == {q \in U : Len(q) = Len(p) + 1 /\ IsPrefixOf(p, q)}

(* ---- opinions ----------------------------------------------------------- *)
\* index of the strongest layer whose node at p satisfies Has, 0 if none
Strongest(ls, p, Has(_)) ==
  LET S == {i \in 1..Len(ls) : p \in DOMAIN ls[i].n /\ Has(ls[i].n[p])} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

InstLayer(ls, p) == Strongest(ls, p, LAMBDA nd : nd.inst.k /= "none")
\* what the layers say about the instance of p
Stated(ls, p) == LET i == InstLayer(ls, p) IN
   IF i = 0 THEN [k |-> "none", s |-> <<>>]
   ELSE LET x == ls[i].n[p].inst IN
     IF x.k = "rel" THEN [k |-> "abs", s |-> ExpandSteps(p, x.s)] ELSE x

(* ---- instancing --------------------------------------------------------- *)
\* A stated instance that can never be honoured
Hopeless(p, s) == s = World \/ s = p \/ IsAncestor(p, s) \/ IsAncestor(s, p) \/ p = World

\* One round: every node with a source gains a counterpart of each child of
\* the source, implied ones included.
\* st: [real: set, all: set, src: [all -> path or NoPath]]
Round(st) ==
  LET new == UNION {{<<Append(t, Last1(c)), c>> : c \in ChildrenIn(st.all, st.src[t])} :
                      t \in {x \in st.all : st.src[x] /= NoPath}}
      tg == {x[1] : x \in new}
      SrcOf(t) == (CHOOSE x \in new : x[1] = t)[2]
      all == st.all \cup tg
      real == st.real \cup {t \in tg : SrcOf(t) \in st.real}
  IN [real |-> real, all |-> all, stated |-> st.stated,
      src |-> [t \in all |-> IF t \in st.stated
                             THEN (IF t \in DOMAIN st.src THEN st.src[t] ELSE NoPath)
                             ELSE IF t \in tg THEN SrcOf(t)
                             ELSE st.src[t]]]
MaxLen == 16
MaxNodes == 150
RECURSIVE Grow(_)
Grow(st) == LET nx == Round(st) IN
  IF nx = st THEN [ok |-> TRUE, st |-> st]
  ELSE IF Cardinality(nx.all) > MaxNodes \/ \E p \in nx.all : Len(p) > MaxLen
  THEN [ok |-> FALSE, st |-> st]
  ELSE Grow(nx)

\* Honoured: the set of paths whose stated instance is taken up
Expand(ls, honoured) ==
  LET D == Defined(ls)
      all == D \cup ImpliedBy(D)
      said == {p \in D : Stated(ls, p).k /= "none"}
      src0 == [p \in all |-> IF p \in honoured THEN Stated(ls, p).s ELSE NoPath]
  IN Grow([real |-> D, all |-> all, stated |-> said, src |-> src0])

(* ---- inheritance order --------------------------------------------------- *)
\* nearest existing ancestor, the world last
ParentIn(E, p) ==
  IF p = World THEN NoPath
  ELSE LET S == {k \in 0..(Len(p) - 1) : Prefix(p, k) \in E} IN
    IF S = {} THEN NoPath ELSE Prefix(p, CHOOSE k \in S : \A j \in S : j <= k)

\* C3 merge; Bad when there is no consistent order
Bad == << <<"bad">> >>
RECURSIVE Merge3(_)
Merge3(seqs) ==
  LET ne == SelectSeq(seqs, LAMBDA s : s /= <<>>) IN
  IF ne = <<>> THEN <<>>
  ELSE LET good == {i \in 1..Len(ne) : \A j \in 1..Len(ne) :
                       \A k \in 2..Len(ne[j]) : ne[j][k] /= ne[i][1]} IN
    IF good = {} THEN Bad
    ELSE LET g == CHOOSE i \in good : \A j \in good : i <= j
             h == ne[g][1]
             r == Merge3([j \in 1..Len(ne) |-> IF ne[j][1] = h THEN Tail(ne[j]) ELSE ne[j]])
         IN IF r = Bad THEN Bad ELSE <<h>> \o r

\* Order in which nodes are consulted for an attribute of each node
RECURSIVE LinRounds(_, _, _, _)
LinRounds(E, par, src, done) ==
  LET ready == {n \in E \ DOMAIN done : /\ (par[n] = NoPath \/ par[n] \in DOMAIN done)
                                        /\ (src[n] = NoPath \/ src[n] \in DOMAIN done)}
      Of(n) ==
        LET hasp == par[n] /= NoPath
            hass == src[n] /= NoPath
            lp == IF hasp THEN done[par[n]] ELSE <<>>
            lsx == IF hass THEN done[src[n]] ELSE <<>>
            shared == hasp /\ hass /\ par[n] \in Elems(lsx) /\ par[n] /= src[n]
        IN IF lp = Bad \/ lsx = Bad THEN Bad
           ELSE IF (~hasp \/ shared) /\ hass THEN <<n>> \o lsx
           ELSE IF hasp /\ (~hass \/ par[n] = src[n]) THEN <<n>> \o lp
           ELSE IF ~hasp THEN <<n>>
           ELSE LET m == Merge3(<<lp, lsx, <<par[n], src[n]>> >>) IN
                IF m = Bad THEN Bad ELSE <<n>> \o m
  IN IF ready = {} THEN done
     ELSE LinRounds(E, par, src,
            [n \in DOMAIN done \cup ready |-> IF n \in DOMAIN done THEN done[n] ELSE Of(n)])

(* ---- the composite -------------------------------------------------------- *)
\* ls: indexed active layers.  Counterparts of implied nodes are implied
\* themselves: such a path is allowed in the composite, but not demanded.
\* Extra: the implied paths taken to be nodes.
ComposeGrown(ls, honoured, g, extra) ==
  LET E == g.st.real \cup extra
      src == [p \in E |-> IF g.st.src[p] /= NoPath /\ g.st.src[p] \in E THEN g.st.src[p] ELSE NoPath]
      par == [p \in E |-> ParentIn(E, p)]
      lin == LinRounds(E, par, src, <<>>)
      acyclic == g.ok /\ DOMAIN lin = E
  IN [ok |-> acyclic, E |-> E, maybe |-> g.st.all, src |-> src, want |-> [p \in E |-> g.st.src[p]],
      lin |-> IF acyclic THEN lin ELSE <<>>,
      consistent |-> acyclic /\ \A p \in E : lin[p] /= Bad,
      honoured |-> honoured, exact |-> TRUE]
ComposeExtra(ls, honoured, extra) == ComposeGrown(ls, honoured, Expand(ls, honoured), extra)
ComposeWith(ls, honoured) == ComposeExtra(ls, honoured, {})

Candidates(ls) == {p \in Defined(ls) : LET s == Stated(ls, p) IN s.k = "abs" /\ ~Hopeless(p, s.s)}

\* What an instance at x of s reaches.  H: the instances taken up.
\* Mirrors: where what is at p comes from, p being part of an instance.
Mirrors(ls, H, p) == {Stated(ls, t).s \o SubSeq(p, Len(t) + 1, Len(p)) : t \in {t \in H : IsPrefixOf(t, p)}}
Bounded(S) == {p \in S : Len(p) <= 8}
RECURSIVE Contains(_, _, _)
Contains(ls, H, S) ==
  LET n == S \cup Bounded(UNION {Mirrors(ls, H, p) \cup {Stated(ls, t).s : t \in {t \in H : Len(t) > Len(p) /\ IsPrefixOf(p, t)}} : p \in S})
  IN IF n = S THEN S ELSE Contains(ls, H, n)
RECURSIVE Leans(_, _, _)
Leans(ls, H, S) ==
  LET n == S \cup Bounded(UNION {Mirrors(ls, H, p) \cup {Prefix(p, k) : k \in 1..Len(p)} : p \in S})
  IN IF n = S THEN S ELSE Leans(ls, H, n)
\* The instances that may make a node depend on itself: through what the
\* source inherits, or by being part of what they mirror.
Disputable(ls) ==
  LET H == Candidates(ls) IN
  {x \in H : LET c == Contains(ls, H, {Stated(ls, x).s}) IN
             (\E q \in c : IsPrefixOf(q, x)) \/ x \in Leans(ls, H, c)}

\* Every way to resolve the instances: all of them honoured unless some disagree
\* about who depends on whom; which of those are refused is not specified.
Resolutions(ls) ==
  LET C == Candidates(ls)
      D == Disputable(ls)
      few == IF Cardinality(D) <= 6 THEN D ELSE {}
  IN {(C \ D) \cup R : R \in SUBSET few}
Composites(ls) == {c \in {ComposeWith(ls, R) : R \in Resolutions(ls)} : c.ok}

(* ---- reading it ------------------------------------------------------------ *)
\* definitions of attribute a at exactly path p: layer indexes, strong to weak
HasAttr(nd, a) == \E k \in 1..Len(nd.attrs) : nd.attrs[k].n = a
AttrRec(nd, a) == nd.attrs[CHOOSE k \in 1..Len(nd.attrs) : nd.attrs[k].n = a]
DefsAt(ls, p, a) == SelectSeq(Holders(ls, p), LAMBDA i : HasAttr(ls[i].n[p], a))
\* every definition consulted for attribute a of p, strongest first: <<path, layer index>>
RECURSIVE DefsAlong(_, _, _)
DefsAlong(ls, lin, a) ==
  IF lin = <<>> THEN <<>>
  ELSE LET ds == DefsAt(ls, Head(lin), a) IN
       [k \in 1..Len(ds) |-> <<Head(lin), ds[k]>>] \o DefsAlong(ls, Tail(lin), a)
Defs(ls, c, p, a) == DefsAlong(ls, c.lin[p], a)
DefRec(ls, d, a) == AttrRec(ls[d[2]].n[d[1]], a)
\* first definition along the order for which Has holds
FirstDef(ls, ds, a, Has(_)) ==
  LET S == {k \in 1..Len(ds) : Has(DefRec(ls, ds[k], a))} IN
    IF S = {} THEN None ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN "found"
AttrNames(ls, c, p) == UNION {UNION {{ls[i].n[q].attrs[k].n : k \in 1..Len(ls[i].n[q].attrs)} :
                                      i \in Elems(Holders(ls, q))} : q \in Elems(c.lin[p])}

\* opinions that pass from an instance source to its instance
RECURSIVE Passed(_, _, _, _)
Passed(ls, c, p, f) ==
  LET i == Strongest(ls, p, LAMBDA nd : nd[f] /= None) IN
    IF i /= 0 THEN ls[i].n[p][f]
    ELSE IF c.src[p] = NoPath THEN None ELSE Passed(ls, c, c.src[p], f)
Own(ls, p, f) == LET i == Strongest(ls, p, LAMBDA nd : nd[f] /= None) IN
                 IF i = 0 THEN None ELSE ls[i].n[p][f]
OwnLayer(ls, p, f) == LET i == Strongest(ls, p, LAMBDA nd : nd[f] /= None) IN
                 IF i = 0 THEN None ELSE ls[i].id

\* child order: what one layer states for p (declared names, then its own children)
SpecOrder(l, p) == Uniq(l.n[p].co)
SpecKids(l, p) == {NameOf(q) : q \in ChildrenIn(DOMAIN l.n, p)}
FirstOrder(ls, p) ==   \* the strongest non-empty statement: <<declared names, own children>>
  LET H == Holders(ls, p)
      S == {k \in 1..Len(H) : SpecOrder(ls[H[k]], p) /= <<>> \/ SpecKids(ls[H[k]], p) /= {}} IN
    IF S = {} THEN <<>> ELSE SpecOrder(ls[H[CHOOSE k \in S : \A j \in S : k <= j]], p)
AllOrdered(ls, p) == UNION {Elems(SpecOrder(ls[i], p)) \cup SpecKids(ls[i], p) : i \in Elems(Holders(ls, p))}
Kids(c, p) == ChildrenIn(c.E, p)
=============================================================================
