------------------------------ MODULE NxtLoad ------------------------------
(* Files that reference each other, and the layers they are loaded into.      *)
(* A world w: files (absolute path -> [st, refs, to]), env (name -> text),    *)
(* home, roots (directories searched before the referencing file's own).      *)
(* Paths are sequences of names; references are texts.                        *)
EXTENDS NxtPath, FiniteSets
LChar(s, i) == SubSeq(s, i, i)
WordChars == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
WordSet == {LChar(WordChars, i) : i \in 1..63}
RECURSIVE SplitText(_, _, _)
SplitText(t, i, cur) == IF i > Len(t) THEN <<cur>>
  ELSE IF LChar(t, i) = "/" THEN <<cur>> \o SplitText(t, i + 1, "") ELSE SplitText(t, i + 1, cur \o LChar(t, i))
RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF i <= Len(t) /\ LChar(t, i) \in WordSet THEN WordEnd(t, i + 1) ELSE i
RECURSIVE Find1(_, _, _)
Find1(t, i, ch) == IF i > Len(t) THEN 0 ELSE IF LChar(t, i) = ch THEN i ELSE Find1(t, i + 1, ch)
Known(w, n, whole) == IF n \in DOMAIN w.env THEN w.env[n] ELSE whole
\* environment variables in any of the styles $N, ${N} and %N%
RECURSIVE ExpandVars(_, _, _)
ExpandVars(w, t, i) ==
  IF i > Len(t) THEN ""
  ELSE IF LChar(t, i) = "$" /\ i < Len(t) /\ LChar(t, i + 1) = "{" /\ Find1(t, i, "}") > 0
  THEN LET e == Find1(t, i, "}") IN Known(w, SubSeq(t, i + 2, e - 1), SubSeq(t, i, e)) \o ExpandVars(w, t, e + 1)
  ELSE IF LChar(t, i) = "$" /\ WordEnd(t, i + 1) > i + 1
  THEN LET e == WordEnd(t, i + 1) IN Known(w, SubSeq(t, i + 1, e - 1), SubSeq(t, i, e - 1)) \o ExpandVars(w, t, e)
  ELSE IF LChar(t, i) = "%" /\ WordEnd(t, i + 1) > i + 1 /\ WordEnd(t, i + 1) <= Len(t) /\ LChar(t, WordEnd(t, i + 1)) = "%"
  THEN LET e == WordEnd(t, i + 1) IN Known(w, SubSeq(t, i + 1, e - 1), "$" \o SubSeq(t, i + 1, e - 1)) \o ExpandVars(w, t, e + 1)
  ELSE LChar(t, i) \o ExpandVars(w, t, i + 1)
Full(w, t) == LET v == ExpandVars(w, t, 1) IN
  IF v = "~" THEN w.home ELSE IF Len(v) > 1 /\ SubSeq(v, 1, 2) = "~/" THEN w.home \o SubSeq(v, 2, Len(v)) ELSE v
RECURSIVE Walk(_, _)
Walk(cur, steps) == IF steps = <<>> THEN cur
  ELSE Walk(CASE Head(steps) \in {"", "."} -> cur [] Head(steps) = ".." -> ParentOf(cur) [] OTHER -> Append(cur, Head(steps)), Tail(steps))
\* where the text leads, from the directory dir
Leads(w, t, dir) == LET f == Full(w, t) IN
  IF f # "" /\ LChar(f, 1) = "/" THEN Walk(<<>>, SplitText(f, 1, "")) ELSE Walk(dir, SplitText(f, 1, ""))
Has(w, p) == p \in DOMAIN w.files
Dir(p) == Front1(p)
\* the file itself when p is a link to it
RECURSIVE Real(_, _)
Real(w, p) == IF Has(w, p) /\ w.files[p].st = "link" THEN Real(w, Walk(Dir(p), SplitText(w.files[p].to, 1, ""))) ELSE p
RECURSIVE InRoots(_, _, _)
InRoots(w, t, rs) == IF rs = <<>> THEN <<>>
  ELSE LET p == Leads(w, t, Head(rs)) IN IF Has(w, p) THEN <<Real(w, p)>> ELSE InRoots(w, t, Tail(rs))
\* the file a reference written in a file of the directory dir means
Means(w, t, dir) == LET r == InRoots(w, t, w.roots) IN IF r # <<>> THEN r[1] ELSE Real(w, Leads(w, t, dir))
Readable(w, p) == Has(w, p) /\ w.files[p].st = "ok"
RefsOf(w, p) == w.files[p].refs
\* the layers of a readable file: itself, then each reference's layers.  A
\* layer: the file, the text it was found by, its parent's place, references.
RECURSIVE Load(_, _, _, _, _, _)
RECURSIVE LoadRefs(_, _, _, _, _, _, _)
\* at: how many layers come before it
Load(w, p, ref, par, at, above) ==
  <<[f |-> p, ref |-> ref, par |-> par, refs |-> RefsOf(w, p)]>> \o LoadRefs(w, p, RefsOf(w, p), at + 1, at + 1, above \cup {p}, <<>>)
LoadRefs(w, p, refs, me, at, above, done) ==
  IF refs = <<>> THEN done
  ELSE LET q == Means(w, Head(refs), Dir(p))
           new == IF Readable(w, q) /\ q \notin above THEN Load(w, q, Head(refs), me, at, above) ELSE <<>>
       IN LoadRefs(w, p, Tail(refs), me, at + Len(new), above, done \o new)
LoadTop(w, p) == Load(w, p, "", 0, 0, {})
\* editing the list of layers
RECURSIVE Above(_, _)
Above(s, k) == IF k = 0 THEN {} ELSE {k} \cup Above(s, s[k].par)
Under(s, k) == {j \in 1..Len(s) : k \in Above(s, j)}
FilesAbove(s, k) == {s[j].f : j \in Above(s, k)}
\* places after n layers were put in behind place k
Shift(s, k, n) == [j \in 1..Len(s) |-> IF s[j].par > k THEN [s[j] EXCEPT !.par = @ + n] ELSE s[j]]
Put(s, k, new) == LET t == Shift(s, k, Len(new)) IN SubSeq(t, 1, k) \o new \o SubSeq(t, k + 1, Len(t))
Mentions(s, k, ref) == \E r \in 1..Len(s[k].refs) : s[k].refs[r] = ref
\* layer k comes to reference a file, as its first reference
AddSub(w, s, k, ref) ==
  LET q == Means(w, ref, Dir(s[k].f))
      new == Load(w, q, ref, k, k, FilesAbove(s, k))
      t == IF Mentions(s, k, ref) THEN s ELSE [s EXCEPT ![k].refs = <<ref>> \o @]
  IN Put(t, k, new)
\* a file put on top of everything
AddTop(w, s, p) ==
  LET new == Load(w, p, "", 0, 0, {})
      old == Shift(s, -1, Len(new))
      top == [new[1] EXCEPT !.refs = Append(@, Text(s[1].f))]
  IN <<top>> \o Tail(new) \o <<[old[1] EXCEPT !.par = 1, !.ref = Text(s[1].f)]>> \o Tail(old)
RECURSIVE Without1(_, _)
Without1(refs, r) == IF refs = <<>> THEN <<>> ELSE IF Head(refs) = r THEN Tail(refs) ELSE <<Head(refs)>> \o Without1(Tail(refs), r)
Remove(s, k) ==
  LET gone == Under(s, k)
      left == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : j \notin gone)
      place == [j \in 0..Len(s) |-> Cardinality({m \in 1..Len(left) : left[m] <= j})]
  IN [m \in 1..Len(left) |-> [s[left[m]] EXCEPT !.par = place[@], !.refs = IF left[m] = s[k].par THEN Without1(@, s[k].ref) ELSE @]]
\* the world once every layer was written to its file
OneFile(s) == \A j, m \in 1..Len(s) : s[j].f = s[m].f => j = m
Saved(w, s) == [w EXCEPT !.files = [p \in DOMAIN w.files |-> IF \E j \in 1..Len(s) : s[j].f = p
                 THEN [w.files[p] EXCEPT !.refs = s[CHOOSE j \in 1..Len(s) : s[j].f = p].refs] ELSE w.files[p]]]
Shape(s) == [j \in 1..Len(s) |-> [f |-> Text(s[j].f), par |-> s[j].par, refs |-> s[j].refs]]
=============================================================================
