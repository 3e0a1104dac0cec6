------------------------------ MODULE NxtNames ------------------------------
(* Names the system makes up, and edits of a node's attributes.               *)
(* attrs: name -> [v, t, c], the attributes a node holds in one layer.        *)
EXTENDS NxtEdit
\* the other printable characters, none of which a name may hold
Signs == {" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",":",";","<","=",">","?","@","[","\\","]","^","`","{","|","}","~"}
Chars(s) == {Char(s, k) : k \in 1..Len(s)}
\* names with other characters: what is done to those is left open
Plain(s) == Chars(s) \subseteq Letters \cup Digits \cup Signs
Lawful(s) == Len(s) > 0 /\ Char(s, 1) \notin Digits /\ Chars(s) \cap Signs = {}
RECURSIVE Clean(_)
Clean(s) == IF s = "" THEN "" ELSE LET c == Char(s, Len(s)) IN Clean(SubSeq(s, 1, Len(s) - 1)) \o (IF c \in Letters \cup Digits THEN c ELSE "_")
Legalize(s) == IF s = "" \/ Char(s, 1) \in Digits THEN "_" \o Clean(s) ELSE Clean(s)
RECURSIVE Stem(_)
Stem(s) == IF s # "" /\ Char(s, Len(s)) \in Digits THEN Stem(SubSeq(s, 1, Len(s) - 1)) ELSE s
EndsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
NodeReserved == {"__name__"}
\* asked for: the name a user wants; used: the names it would collide with
GoodName(asked, got, used, reserved) ==
  (IF Lawful(got) THEN {} ELSE {"Legal"})
  \cup (IF got \notin used THEN {} ELSE {"Unique"})
  \cup (IF got \notin reserved THEN {} ELSE {"NotReserved"})
  \cup (IF ~Plain(asked) \/ Legalize(asked) \in used \cup reserved \/ got = Legalize(asked) THEN {} ELSE {"FreeNameKept"})
  \cup (IF ~Plain(asked) \/ Stem(got) = Stem(Legalize(asked)) THEN {} ELSE {"AfterTheNameAsked"})
\* one way of making a name up
RECURSIVE Count(_, _, _)
Count(stem, k, taken) == IF (stem \o ToString(k)) \in taken THEN Count(stem, k + 1, taken) ELSE stem \o ToString(k)
MakeUp(asked, taken) == LET n == Legalize(asked) IN IF n \notin taken THEN n ELSE Count(Stem(n), 2, taken)

(* --- attributes ------------------------------------------------------------ *)
AddA(attrs, n, x) == Put(attrs, n, x)
RenA(attrs, a, n) == IF a \in DOMAIN attrs THEN Put(Drop(attrs, {a}), n, attrs[a]) ELSE attrs
DelA(attrs, a) == Drop(attrs, {a})
\* x: what is set, Absent where nothing is
SetA(attrs, a, x) == LET old == IF a \in DOMAIN attrs THEN attrs[a] ELSE NoAttr IN
  Put(attrs, a, [v |-> IF x.v = Absent THEN old.v ELSE x.v, t |-> IF x.t = Absent THEN old.t ELSE x.t, c |-> IF x.c = Absent THEN old.c ELSE x.c])
=============================================================================
