------------------------------- MODULE MCComp -------------------------------
(* Authors write nodes into layers, one at a time, until Budget nodes exist;  *)
(* every graph that arises is composed and the guarantees of the composition  *)
(* are checked on it.  Each graph is also printed: the same graph is then     *)
(* built by the implementation.                                               *)
EXTENDS NxtComp, TLC, Json, SequencesExt
CONSTANTS Profile, Budget
VARIABLES w, flags    \* w: <<layer, path>> -> node;  flags: layer -> <<mute, solo>>
vars == <<w, flags>>

NoInst == [k |-> None, s |-> <<>>]
Bare(p) == [p |-> p, inst |-> NoInst, code |-> None, comment |-> None, enabled |-> None,
            exec |-> None, start |-> None, attrs |-> <<>>, co |-> <<>>]
A1 == {<<"a">>, <<"b">>}
A2 == {<<x, y>> : x \in {"a", "b"}, y \in {"a", "b"}}
To(q) == [k |-> "abs", s |-> q]
X(l, p) == <<[n |-> "x", v |-> "L" \o ToString(l) \o Text(p), t |-> None, c |-> None]>>

Slots ==
  CASE Profile = "inst"  -> {1} \X (A1 \cup A2)
    [] Profile = "deep"  -> {1} \X {<<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a", "b">>, <<"b", "b", "a">>}
    [] Profile = "value" -> {1, 2} \X {<<"a">>, <<"a", "b">>, <<"b">>, World}
    [] Profile = "flags" -> {1, 2, 3} \X {<<"a">>}
    [] Profile = "kids"  -> {<<1, <<"a">>>>, <<2, <<"a">>>>, <<1, <<"a", "a">>>>, <<2, <<"a", "b">>>>, <<1, <<"a", "b", "a">>>>, <<1, <<"b">>>>, <<1, <<"b", "a">>>>}
    [] Profile = "exec"  -> {1} \X {<<"a">>, <<"b">>, <<"c">>, <<"a", "b">>, <<"a", "b", "c">>, <<"b", "a">>}
NLayers == CASE Profile = "flags" -> 3 [] Profile \in {"value", "kids"} -> 2 [] OTHER -> 1

Options(l, p) ==
  LET b == Bare(p) IN
  CASE Profile = "inst" -> {b} \cup {[b EXCEPT !.inst = To(q)] : q \in (A1 \cup A2) \ {p}}
    [] Profile = "deep" -> {b} \cup {[b EXCEPT !.inst = To(q), !.attrs = X(l, p)] : q \in {<<"a">>, <<"b">>, <<"a", "a">>, <<"b", "b">>, <<"b", "a">>} \ {p}}
    [] Profile = "value" ->
        {b, [b EXCEPT !.attrs = X(l, p)]}
        \cup (IF p = World THEN {} ELSE
              {[b EXCEPT !.inst = i, !.code = c, !.comment = c] :
                   i \in {To(<<"a">>), To(<<"b">>), To(<<"a", "b">>), [k |-> "empty", s |-> <<>>]} \ {To(p)},
                   c \in {None, "x = 1  # " \o ToString(l)}})
        \cup {[b EXCEPT !.code = "x = 2  # " \o ToString(l), !.enabled = IF p = World THEN None ELSE "false"]}
    [] Profile = "flags" -> {[b EXCEPT !.attrs = X(l, p)], [b EXCEPT !.enabled = "true", !.comment = ToString(l)]}
    [] Profile = "kids" -> IF Len(p) > 1 THEN {b}
                           ELSE {[b EXCEPT !.co = c, !.inst = i] :
                                 c \in {<<>>, <<"a">>, <<"b">>, <<"b", "a">>, <<"a", "b">>},
                                 i \in IF p = <<"b">> THEN {NoInst, To(<<"a">>)} ELSE {NoInst}}
    [] Profile = "exec" -> {[b EXCEPT !.exec = e, !.enabled = on] :
                             e \in IF Len(p) = 1 THEN {None, "/a", "/b", "/c"} ELSE {None}, on \in {None, "false"}}
Flags == IF Profile = "flags" THEN [1..3 -> BOOLEAN \X BOOLEAN] ELSE {[i \in 1..NLayers |-> <<FALSE, FALSE>>]}

LayersOf == [i \in 1..NLayers |->
  [id |-> "l" \o ToString(i - 1) \o ".nxt", mute |-> flags[i][1], solo |-> flags[i][2],
   nodes |-> SetToSeq({w[k] : k \in {k \in DOMAIN w : k[1] = i}})]]

Init == w = <<>> /\ flags \in Flags
Write(k) == /\ k \notin DOMAIN w
            /\ \E o \in Options(k[1], k[2]) : w' = [j \in DOMAIN w \cup {k} |-> IF j = k THEN o ELSE w[j]]
            /\ flags' = flags
Next == Cardinality(DOMAIN w) < Budget /\ \E k \in Slots : Write(k)
Spec == Init /\ [][Next]_vars
Show == IF w = <<>> THEN TRUE ELSE PrintT("@@SCN" \o ToJson(LayersOf))

-----------------------------------------------------------------------------
Guarantees ==
 LET act == ActiveLayers(LayersOf)
     ls == IndexAll(act)
     cs == Composites(ls)
     D == Disputable(ls)
 IN \* muted and unsoloed layers are as if they were not there
    /\ \A i \in 1..NLayers : (LayersOf[i] \in Elems(act)) =
           (~flags[i][1] /\ ((\E j \in 1..NLayers : flags[j][2]) => flags[i][2]))
    \* some resolution always exists; without disputes it is the only one
    /\ cs /= {}
    /\ D = {} => Cardinality(cs) = 1 /\ \A c \in cs : c.honoured = Candidates(ls)
    /\ \A c \in cs :
       \* only what is defined, or mirrored, exists
       /\ Defined(ls) \subseteq c.E
       /\ \A p \in c.E \ Defined(ls) : \E q \in c.honoured : IsPrefixOf(q, p)
       \* an instance mirrors the whole subtree of its source
       /\ \A p \in c.E : c.src[p] /= NoPath =>
            \A q \in c.E : IsPrefixOf(c.src[p], q) =>
               \/ p \o SubSeq(q, Len(c.src[p]) + 1, Len(q)) \in c.E
               \* local statements below the instance may cut it off
               \/ \E k \in (Len(c.src[p]) + 1)..Len(q) :
                    Stated(ls, p \o SubSeq(q, Len(c.src[p]) + 1, k)).k /= "none"
       /\ c.consistent =>
          \A p \in c.E :
            LET lin == c.lin[p] IN
            \* the node itself first, nobody twice, never itself again
            /\ lin[1] = p /\ Len(lin) = Cardinality(Elems(lin))
            \* parent and source are consulted, the parent first unless the source has it too
            /\ LET pa == ParentIn(c.E, p) IN pa /= NoPath =>
                 /\ pa \in Elems(lin)
                 /\ (c.src[p] /= NoPath /\ c.src[p] /= pa /\ pa \notin Elems(c.lin[c.src[p]])) =>
                      \E i \in 1..Len(lin) : \E j \in 1..Len(lin) : i < j /\ lin[i] = pa /\ lin[j] = c.src[p]
            /\ c.src[p] /= NoPath => c.src[p] \in Elems(lin)
            /\ LET own == DefsAt(ls, p, "x") IN own /= <<>> =>
                 Defs(ls, c, p, "x")[1] = <<p, own[1]>> /\ \A i \in Elems(own) : own[1] <= i
            \* the strongest opinion wins
            /\ \A f \in {"code", "comment", "enabled"} :
                 \A i \in 1..Len(ls) : (/\ p \in DOMAIN ls[i].n /\ ls[i].n[p][f] /= None
                                        /\ \A j \in 1..(i - 1) : p \notin DOMAIN ls[j].n \/ ls[j].n[p][f] = None)
                                       => Passed(ls, c, p, f) = ls[i].n[p][f]
            \* and no opinion anywhere along the sources means none
            /\ (c.src[p] = NoPath /\ Own(ls, p, "code") = None) => Passed(ls, c, p, "code") = None
=============================================================================
