------------------------------ MODULE NxtEdit -------------------------------
(* Edits of one layer.  A layer is                                            *)
(*  [nodes: path -> [f: field -> text, co: seq of names,                      *)
(*                   attrs: name -> [v, t, c]],                               *)
(*   pos, col: path -> text, rest: anything else the layer would save]        *)
(* Every edit is a function from the layer before to the layer after, given   *)
(* the name the edit settled on (names are NameOK's business).                *)
EXTENDS NxtFile, NxtPath
NoNode == [f |-> <<>>, co |-> <<>>, attrs |-> <<>>]
Has(L, p) == p \in DOMAIN L.nodes
Below(L, p) == {x \in DOMAIN L.nodes : IsAncestor(x, p)}
WithoutName(s, n) == SelectSeq(s, LAMBDA x : x # n)
AddName(s, n) == IF n \in Elems(s) THEN s ELSE Append(s, n)
ReplaceName(s, old, new) == Dedupe([i \in 1..Len(s) |-> IF s[i] = old THEN new ELSE s[i]])
Drop(fn, ks) == [k \in DOMAIN fn \ ks |-> fn[k]]
Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
\* an order is stated by every node but the world
SetCo(L, p, co) == IF p = World \/ ~Has(L, p) THEN L ELSE [L EXCEPT !.nodes[p].co = co]
CoOf(L, p) == IF Has(L, p) THEN L.nodes[p].co ELSE <<>>
MoveKey(fn, p, q) == IF p \in DOMAIN fn THEN Put(Drop(fn, {p}), q, fn[p]) ELSE fn
\* p and everything below it goes to q, whatever it holds
MoveTree(L, p, q) ==
  LET gone == {p} \cup Below(L, p)
      to == {ReplaceAncestor(x, p, q) : x \in gone}
      dom == (DOMAIN L.nodes \ gone) \cup to
      colgone == {x \in DOMAIN L.col : IsPrefixOf(p, x)}
      colto == {ReplaceAncestor(x, p, q) : x \in colgone} IN
    [L EXCEPT !.nodes = [x \in dom |-> IF x \in to THEN L.nodes[ReplaceAncestor(x, q, p)] ELSE L.nodes[x]],
              !.col = [x \in (DOMAIN L.col \ colgone) \cup colto |->
                         IF x \in colto THEN L.col[ReplaceAncestor(x, q, p)] ELSE L.col[x]]]

AddNode(L, q, node) ==
  LET L1 == [L EXCEPT !.nodes = Put(@, q, node)] IN SetCo(L1, ParentOf(q), AddName(CoOf(L1, ParentOf(q)), NameOf(q)))
DeleteNode(L, p, desc) ==
  LET below == Below(L, p)
      gone == {p} \cup (IF desc THEN below ELSE {})
      L1 == [L EXCEPT !.nodes = Drop(@, gone), !.pos = Drop(@, gone), !.col = Drop(@, gone)]
      par == ParentOf(p) IN
    \* what is left below keeps the place of the path it now only implies
    IF desc \/ below = {} THEN SetCo(L1, par, WithoutName(CoOf(L1, par), NameOf(p))) ELSE L1
RenameNode(L, p, q) ==
  LET L1 == MoveTree(L, p, q)
      L2 == [L1 EXCEPT !.pos = MoveKey(@, p, q)] IN
    SetCo(L2, ParentOf(p), ReplaceName(CoOf(L2, ParentOf(p)), NameOf(p), NameOf(q)))
ReparentNode(L, p, q) ==
  LET L1 == SetCo(L, ParentOf(p), WithoutName(CoOf(L, ParentOf(p)), NameOf(p)))
      L2 == SetCo(L1, ParentOf(q), AddName(CoOf(L1, ParentOf(q)), NameOf(q))) IN
    MoveTree(L2, p, q)
RECURSIVE ReparentAll(_, _, _)
ReparentAll(L, ps, qs) == IF ps = <<>> \/ qs = <<>> THEN L ELSE ReparentAll(ReparentNode(L, Head(ps), Head(qs)), Tail(ps), Tail(qs))
\* ancestors of p the layer does not have, from the world down; as long as its
\* parent is there none is needed
Missing(L, p) == IF Len(p) < 2 \/ Has(L, ParentOf(p)) THEN <<>> ELSE SelectSeq([i \in 1..(IF p = World THEN 0 ELSE Len(p) - 1) |-> Prefix(p, i)], LAMBDA x : ~Has(L, x))
RECURSIVE AddAll(_, _, _)
AddAll(L, qs, empty) == IF qs = <<>> THEN L ELSE AddAll(AddNode(L, Head(qs), empty), Tail(qs), empty)
DuplicateNode(L, p, q, node, desc, empty) ==
  LET L1 == AddNode(AddAll(L, Missing(L, p), empty), q, node)
      below == Below(L, p)
      to == {ReplaceAncestor(x, p, q) : x \in below} IN
    IF desc THEN [L1 EXCEPT !.nodes = [x \in DOMAIN L1.nodes \cup to |->
                                         IF x \in to THEN L.nodes[ReplaceAncestor(x, q, p)] ELSE L1.nodes[x]]]
    ELSE L1
SetField(L, p, k, v) == [L EXCEPT !.nodes[p].f = Put(@, k, v)]
SetAttr(L, p, a, v) == [L EXCEPT !.nodes[p].attrs = Put(@, a, v)]
DelAttr(L, p, a) == [L EXCEPT !.nodes[p].attrs = Drop(@, {a})]
RenAttr(L, p, a, b) == SetAttr(DelAttr(L, p, a), p, b, L.nodes[p].attrs[a])

(* --- what has to hold of any layer ---------------------------------------- *)
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Char(s, i) == SubSeq(s, i, i)
LegalName(s) == Len(s) > 0 /\ Char(s, 1) \notin Digits /\ \A i \in 1..Len(s) : Char(s, i) \in Letters \cup Digits
NoRepeat(s) == Cardinality(Elems(s)) = Len(s)
KidNames(L, p) == {x \in DOMAIN L.nodes : x # World /\ ParentOf(x) = p}
WellFormed(L) == \A p \in DOMAIN L.nodes : NoRepeat(L.nodes[p].co)
=============================================================================
