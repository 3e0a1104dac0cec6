----------------------------- MODULE MCFallback -----------------------------
(* Every small graph of three layers in directories of their own, with what   *)
(* they say a file is, and every set of files and roots.                      *)
EXTENDS NxtFallback, Json, TLC
CONSTANT Menu
VARIABLES x, raw, fset, rts, above
vars == <<x, raw, fset, rts, above>>
D(k) == IF k = 0 THEN <<"d0">> ELSE IF k = 1 THEN <<"d1">> ELSE <<"d2">>
At1(n, v) == IF v = "-" THEN <<>> ELSE <<[n |-> n, v |-> v, t |-> None, c |-> None]>>
Nd(p, inst, as) == [p |-> p, inst |-> inst, code |-> None, comment |-> None, enabled |-> None, exec |-> None, start |-> None, attrs |-> as, co |-> <<>>]
NoInst == [k |-> "none", s |-> <<>>]
\* l: [f, g: values on /n, h: value of g on /m, mute, solo]
Layer(k, l) == [id |-> IF k = 0 THEN "l0.nxt" ELSE IF k = 1 THEN "l1.nxt" ELSE "l2.nxt", mute |-> l.mute, solo |-> l.solo, dir |-> D(k),
  nodes |-> <<Nd(<<"n">>, NoInst, At1("f", l.f) \o At1("g", l.g))>> \o (IF l.h = "-" THEN <<>> ELSE <<Nd(<<"m">>, NoInst, At1("g", l.h))>>)
            \o (IF k = 2 THEN <<Nd(<<"i">>, [k |-> "abs", s |-> <<"n">>], <<>>)>> ELSE <<>>)]
L(f, gg, h) == [f |-> f, g |-> gg, h |-> h, mute |-> FALSE, solo |-> FALSE]
Flags == {<<"", "", "">>, <<"m", "", "">>, <<"", "m", "">>, <<"s", "", "">>, <<"", "", "s">>}
Flag(l, fl) == [l EXCEPT !.mute = (fl = "m"), !.solo = (fl = "s")]
Tops == {L("${file::${g}}", "x", "-"), L("${file::${/m.g}}", "-", "y"), L("-", "x", "-"), L("${file::s/${g}}", "-", "-")}
Mids == {L("-", "y", "x"), L("${file::y}", "-", "-"), L("${file::${g}}", "x", "${../n.g}")}
Lows == {L("${file::${g}}", "y", "x"), L("${file::${/m.g}}", "x", "${g}")}
Txts == IF Menu = 1 THEN <<"${filelist::${g}}", "${filelist::${/m.g}}">> ELSE <<"${filelist::${g}}", "${path::${g}}", "${file::s/${/n.g}}">>
FilesOf(S) == [p \in S \cup ImpliedBy(S) \cup {<<"r1">>, <<"r2">>} \cup {D(k) : k \in 0..2} |-> [st |-> "ok", refs |-> <<>>, to |-> ""]]
Cands == {<<"d0", "x">>, <<"d1", "x">>, <<"d2", "x">>, <<"d1", "y">>, <<"d2", "y">>, <<"r1", "x">>, <<"r2", "x">>, <<"d2", "s", "x">>}
FileSets == IF Menu = 1 THEN {S \in SUBSET Cands : Cardinality(S) \in {0, 2}} \ {{a, b} : a \in {<<"d2", "y">>}, b \in Cands} ELSE {S \in SUBSET Cands : Cardinality(S) \in {0, 1, 3, 4, 8}}
Roots == {<<>>, <<<<"r1">>, <<"r2">>>>, <<<<"r2">>>>}
World0(S, r) == [files |-> FilesOf(S), env |-> [n \in {} |-> ""], home |-> "/", roots |-> r]
Graph(t, m, lo, fl, S, r, frm) ==
  [layers |-> <<Layer(0, Flag(t, fl[1])), Layer(1, Flag(m, fl[2])), Layer(2, Flag(lo, fl[3]))>>, from |-> frm, cwd |-> <<>>,
   w |-> World0(S, r), texts |-> [n \in {} |-> ""], cut |-> ""]
\* what a scenario is made from
Raws == Tops \X Mids \X Lows \X Flags
Init == raw \in Raws /\ fset \in FileSets /\ rts \in Roots /\ above \in {0, 1} /\ x = <<>>
Next == x = <<>> /\ x' = Prepare(Graph(raw[1], raw[2], raw[3], raw[4], fset, rts, above)) /\ UNCHANGED <<raw, fset, rts, above>>
Spec == Init /\ [][Next]_vars
g == x.g
C == CHOOSE c \in x.comps : TRUE
N == <<"n">>
OneComposite == x # <<>> => Cardinality(x.comps) = 1 /\ SameInstances(x, C)
HasN == x # <<>> /\ N \in C.E
F(y, k) == Found(y, C, N, k)
Ks == {"${g}", "${/m.g}", "x", "s/${g}"}
\* everything found is there, and named once
FoundExists == HasN => \A k \in Ks : LET f == F(x, k) IN Len(f) = Cardinality(Elems(f)) /\ \A j \in 1..Len(f) : \E p \in DOMAIN g.w.files : Text(p) = f[j]
\* nothing more is found with fewer layers
Deeper == HasN => \A k \in Ks : g.from < 2 => LET lower == [x EXCEPT !.g.from = 2] IN Elems(F(lower, k)) \subseteq Elems(F(x, k))
\* a file that is where it was written absolutely is found there, wherever the layers stand
Plain == HasN => \A k \in {"x", "s/x"} : LET f == F(x, k) IN
   f # <<>> => \/ \E j \in 1..Len(g.w.roots) : f[1] = Text(g.w.roots[j]) \o "/" \o k
               \/ \E d \in Elems(Depths(g)) : f[1] = Text(Act(g, d)[1].dir) \o "/" \o k
RootsFirst == HasN => \A j \in 1..Len(g.w.roots) : Has(g.w, Append(g.w.roots[j], "x")) /\ (\A m \in 1..(j - 1) : ~Has(g.w, Append(g.w.roots[m], "x")))
                        => F(x, "x")[1] = Text(Append(g.w.roots[j], "x"))
Nothing == HasN /\ fset = {} => \A k \in Ks : F(x, k) = <<>>
FirstOfList == HasN => \A k \in Ks : LET t == Reads(x, C, N, "${file::" \o k \o "}") f == F(x, k) IN t = IF f = <<>> THEN "" ELSE f[1]
SCN == x # <<>> => PrintT("@@SCN" \o ToJson([layers |-> [k \in 1..3 |-> Flag(raw[k], raw[4][k])], files |-> {SubSeq(Text(p), 2, Len(Text(p))) : p \in fset},
   roots |-> [k \in 1..Len(rts) |-> rts[k][1]], from |-> above, texts |-> Txts]))
=============================================================================
