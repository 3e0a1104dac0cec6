---------------------------- MODULE NxtFallback ----------------------------
(* Texts with file, file list and path tokens.  What a file token stands for  *)
(* is looked for at every depth of the layers of a composite: as the          *)
(* composite would be without the layers above, in the file roots and then in *)
(* the directory of the strongest layer left.                                 *)
(* g: [layers: all, strong to weak, each also with a dir (a path),            *)
(*     from: layers above the composite, w: a world of NxtLoad whose files    *)
(*     are all files and directories there are, cwd: process's own directory, *)
(*     texts: path text -> text of the file there, cut: as in NxtTokens]      *)
EXTENDS NxtComp, NxtLoad, NxtTokens
Act(g, d) == ActiveLayers(SubSeq(g.layers, d + 1, Len(g.layers)))
Depths(g) == SelectSeq([k \in 1..(Len(g.layers) - g.from) |-> g.from + k - 1], LAMBDA d : Act(g, d) # <<>>)
\* the composite, and for each depth the indexed active layers
Prepare(g) == LET ls == IndexAll(Act(g, g.from)) IN
  [g |-> g, ls |-> ls, comps |-> Composites(ls), at |-> [d \in Elems(Depths(g)) |-> IndexAll(Act(g, d))]]
\* instances are the same at every depth
SameInstances(x, c) == \A d \in DOMAIN x.at : \A p \in c.maybe : Stated(x.at[d], p) = Stated(x.ls, p)
NoneRefused(x, c) == \A p \in c.E : Stated(x.ls, p).k = "abs" => c.src[p] # NoPath
\* no node appears only once stronger layers are gone
NoneAppear(x, c) == \A d \in DOMAIN x.at : Defined(x.at[d]) \subseteq c.E
Node(c, txt) == {q \in c.E : Text(q) = txt}
Unknown(c, txt) == \E q \in c.maybe \ c.E : Text(q) = txt
\* the value of an attribute as the layers ls have it; <<>> when there is none
Raw(ls, c, p, a) == LET ds == Defs(ls, c, p, a) IN
  IF ds = <<>> THEN "" ELSE LET v == DefRec(ls, ds[1], a).v IN IF v = None THEN "" ELSE v
\* the first of the roots and the directory in which the text leads somewhere
There(w, t, dirs) == SelectSeq([k \in 1..Len(dirs) |-> Leads(w, t, dirs[k])], LAMBDA p : Has(w, p))
LookIn(w, t, dirs) == LET s == There(w, t, dirs) IN IF s = <<>> THEN "" ELSE Text(Real(w, s[1]))
DirsAt(g, d) == LET own == Act(g, d)[1].dir IN g.w.roots \o (IF Has(g.w, own) THEN <<own>> ELSE <<>>)
RECURSIVE At(_, _, _, _, _, _), AtPieces(_, _, _, _, _, _, _, _), AtToken(_, _, _, _, _, _), FileAt(_, _, _, _, _, _)
\* text t of node p as it reads at depth d
At(x, c, d, p, t, active) ==
  LET b == Bounds(t) IN IF b = <<>> \/ b = Unmatched THEN t ELSE AtPieces(x, c, d, p, t, active, b, 1)
AtPieces(x, c, d, p, t, active, b, from) ==
  IF b = <<>> THEN SubSeq(t, from, Len(t))
  ELSE SubSeq(t, from, b[1][1] - 1) \o AtToken(x, c, d, p, SubSeq(t, b[1][1] + 2, b[1][2] - 1), active)
       \o AtPieces(x, c, d, p, t, active, Tail(b), b[1][2] + 1)
AtToken(x, c, d, p, k, active) ==
  IF Starts(k, "file::") THEN FileAt(x, c, d, p, After(k, "file::"), active)
  ELSE IF k = "_nxtpath" \/ \E pre \in {"filelist::", "path::", "contents::", "ex::"} : Starts(k, pre) THEN x.g.cut
  ELSE LET ref == SplitRef(At(x, c, d, p, k, active))
           to == NamedFrom(ref[1], p)
           at == Node(c, to) IN
       IF at = {} THEN (IF Unknown(c, to) THEN x.g.cut ELSE "")
       ELSE LET q == CHOOSE y \in at : TRUE IN
            IF <<q, "", ref[2]>> \in active THEN x.g.cut
            ELSE At(x, c, d, q, Raw(x.at[d], c, q, ref[2]), active \cup {<<q, "", ref[2]>>})
FileAt(x, c, d, p, k, active) ==
  LET t == At(x, c, d, p, k, active) IN
  LookIn(x.g.w, IF t = "" /\ k # "" THEN "<invalid>" ELSE t, DirsAt(x.g, d))
Found(x, c, p, k) == LET ds == Depths(x.g)
                         all == [m \in 1..Len(ds) |-> FileAt(x, c, ds[m], p, k, {})] IN
  Uniq(SelectSeq(all, LAMBDA r : r # ""))
RECURSIVE Listed(_)
Listed(s) == IF s = <<>> THEN "" ELSE "'" \o Head(s) \o "'" \o (IF Len(s) > 1 THEN ", " ELSE "") \o Listed(Tail(s))
RECURSIVE Backwards(_)
Backwards(t) == IF t = "" THEN "" ELSE Char(t, Len(t)) \o Backwards(SubSeq(t, 1, Len(t) - 1))
\* as it is shown
RECURSIVE Show(_, _, _, _, _), ShowPieces(_, _, _, _, _, _, _), ShowToken(_, _, _, _, _)
Show(x, c, p, t, active) ==
  LET b == Bounds(t) IN IF b = <<>> \/ b = Unmatched THEN t ELSE ShowPieces(x, c, p, t, active, b, 1)
ShowPieces(x, c, p, t, active, b, from) ==
  IF b = <<>> THEN SubSeq(t, from, Len(t))
  ELSE SubSeq(t, from, b[1][1] - 1) \o ShowToken(x, c, p, SubSeq(t, b[1][1] + 2, b[1][2] - 1), active)
       \o ShowPieces(x, c, p, t, active, Tail(b), b[1][2] + 1)
ShowToken(x, c, p, k, active) ==
  IF k = "_nxtpath" THEN Text(p)
  ELSE IF Starts(k, "ex::") THEN Backwards(Show(x, c, p, After(k, "ex::"), active))
  ELSE IF Starts(k, "file::") THEN LET f == Found(x, c, p, After(k, "file::")) IN IF f = <<>> THEN "" ELSE f[1]
  ELSE IF Starts(k, "filelist::") THEN "[" \o Listed(Found(x, c, p, After(k, "filelist::"))) \o "]"
  ELSE IF Starts(k, "path::")
  THEN LET own == Act(x.g, x.g.from)[1].dir
           root == IF x.g.w.roots # <<>> THEN x.g.w.roots[1] ELSE IF Has(x.g.w, own) THEN own ELSE x.g.cwd IN
       Text(Real(x.g.w, Leads(x.g.w, Show(x, c, p, After(k, "path::"), active), root)))
  ELSE IF Starts(k, "contents::")
  THEN LET f == Show(x, c, p, After(k, "contents::"), active) IN
       IF f \notin DOMAIN x.g.texts THEN ""
       ELSE IF <<p, "contents::", f>> \in active THEN x.g.cut
       ELSE Show(x, c, p, x.g.texts[f], active \cup {<<p, "contents::", f>>})
  ELSE LET ref == SplitRef(Show(x, c, p, k, active))
           to == NamedFrom(ref[1], p)
           at == Node(c, to) IN
       IF at = {} THEN (IF Unknown(c, to) THEN x.g.cut ELSE "")
       ELSE LET q == CHOOSE y \in at : TRUE IN
            IF <<q, "", ref[2]>> \in active THEN x.g.cut
            ELSE Show(x, c, q, Raw(x.ls, c, q, ref[2]), active \cup {<<q, "", ref[2]>>})
Reads(x, c, p, t) == Show(x, c, p, t, {})
ReadsValue(x, c, p, a) == Show(x, c, p, Raw(x.ls, c, p, a), {<<p, "", a>>})
WithCut(x, m) == [x EXCEPT !.g.cut = m]
=============================================================================
