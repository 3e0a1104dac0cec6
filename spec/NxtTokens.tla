----------------------------- MODULE NxtTokens -----------------------------
(* Tokens in texts and what they resolve to.  A graph here is                 *)
(*   [vals: path -> attribute name -> text, files: file path -> text,         *)
(*    cut: what a reference denotes while it is being resolved itself]        *)
EXTENDS NxtPath
Char(s, i) == SubSeq(s, i, i)
Opens(t, i) == i < Len(t) /\ Char(t, i) = "$" /\ Char(t, i + 1) = "{"
Starts(t, pre) == Len(t) >= Len(pre) /\ SubSeq(t, 1, Len(pre)) = pre
After(t, pre) == SubSeq(t, Len(pre) + 1, Len(t))

(* --- finding tokens -------------------------------------------------------- *)
\* Bounds of the outermost tokens; a text whose markers do not match has none
Unmatched == <<<<0, 0>>>>
RECURSIVE Scan(_, _, _, _, _, _)
Scan(t, i, from, opened, closed, found) ==
  IF i > Len(t) THEN IF opened = closed THEN found ELSE Unmatched
  ELSE LET op == Opens(t, i)
           o2 == IF op THEN opened + 1 ELSE opened
           c2 == IF ~op /\ opened > 0 /\ Char(t, i) = "}" THEN closed + 1 ELSE closed
           f2 == IF op /\ opened = 0 THEN i ELSE from IN
         IF o2 > 0 /\ o2 = c2 THEN Scan(t, i + 1, 0, 0, 0, Append(found, <<f2, i>>))
         ELSE Scan(t, i + 1, f2, o2, c2, found)
Bounds(t) == Scan(t, 1, 0, 0, 0, <<>>)
Matched(t) == Bounds(t) # Unmatched
Tokens(t) == IF ~Matched(t) THEN <<>> ELSE LET b == Bounds(t) IN [k \in 1..Len(b) |-> SubSeq(t, b[k][1], b[k][2])]
Content(tok) == SubSeq(tok, 3, Len(tok) - 1)
\* tokens without tokens inside: an opening marker and the first closing one
\* after it, no opening marker between
FirstClose(t, i) == LET c == {k \in (i + 2)..Len(t) : Char(t, k) = "}"} IN IF c = {} THEN 0 ELSE CHOOSE k \in c : \A m \in c : k <= m
Atomic(t) == {SubSeq(t, i, FirstClose(t, i)) : i \in {k \in 1..Len(t) : Opens(t, k) /\ FirstClose(t, k) > 0
                                                      /\ ~\E m \in (k + 1)..FirstClose(t, k) : Opens(t, m)}}

(* --- references ------------------------------------------------------------ *)
LastDot(t) == LET d == {k \in 1..Len(t) : Char(t, k) = "."} IN IF d = {} THEN 0 ELSE CHOOSE k \in d : \A m \in d : m <= k
\* <<path text, attribute name>>; no path: an attribute of the node itself
SplitRef(t) == LET k == LastDot(t) IN
  IF k \in {0, 1, Len(t)} THEN <<"", t>> ELSE <<SubSeq(t, 1, k - 1), SubSeq(t, k + 1, Len(t))>>
RECURSIVE SplitSteps(_, _, _)
SplitSteps(t, i, cur) == IF i > Len(t) THEN <<cur>>
                         ELSE IF Char(t, i) = "/" THEN <<cur>> \o SplitSteps(t, i + 1, "")
                         ELSE SplitSteps(t, i + 1, cur \o Char(t, i))
\* text of the path a path text names at p
NamedFrom(t, p) == IF t = "" THEN Text(p) ELSE IF Char(t, 1) = "/" THEN t ELSE Text(ExpandSteps(p, SplitSteps(t, 1, "")))

(* --- resolving ------------------------------------------------------------- *)
Here(g, txt) == {q \in DOMAIN g.vals : Text(q) = txt}
RECURSIVE Resolve(_, _, _, _), Pieces(_, _, _, _, _, _), Denoted(_, _, _, _)
\* active: what is being resolved already
Resolve(g, p, t, active) ==
  LET b == Bounds(t) IN IF b = <<>> \/ b = Unmatched THEN t ELSE Pieces(g, p, t, active, b, 1)
Pieces(g, p, t, active, b, from) ==
  IF b = <<>> THEN SubSeq(t, from, Len(t))
  ELSE SubSeq(t, from, b[1][1] - 1) \o Denoted(g, p, SubSeq(t, b[1][1] + 2, b[1][2] - 1), active)
       \o Pieces(g, p, t, active, Tail(b), b[1][2] + 1)
Denoted(g, p, c, active) ==
  IF c = "_nxtpath" THEN Text(p)
  ELSE IF Starts(c, "contents::")
  THEN LET f == Resolve(g, p, After(c, "contents::"), active) IN
       IF f \notin DOMAIN g.files THEN ""
       ELSE IF <<p, "contents::", f>> \in active THEN g.cut
       ELSE Resolve(g, p, g.files[f], active \cup {<<p, "contents::", f>>})
  ELSE LET ref == SplitRef(Resolve(g, p, c, active))
           at == Here(g, NamedFrom(ref[1], p)) IN
       IF at = {} THEN ""
       ELSE LET q == CHOOSE x \in at : TRUE IN
            IF ref[2] \notin DOMAIN g.vals[q] THEN ""
            ELSE IF <<q, "", ref[2]>> \in active THEN g.cut
            ELSE Resolve(g, q, g.vals[q][ref[2]], active \cup {<<q, "", ref[2]>>})
\* the value of an attribute of p, read where p is
ValueOf(g, p, a) == IF a \notin DOMAIN g.vals[p] THEN "" ELSE Resolve(g, p, g.vals[p][a], {<<p, "", a>>})
\* what a text with a cyclic reference resolves to depends on where it is cut
Cyclic(g, p, t) == Resolve([g EXCEPT !.cut = ""], p, t, {}) # Resolve([g EXCEPT !.cut = "@"], p, t, {})
=============================================================================
