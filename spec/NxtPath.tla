------------------------------ MODULE NxtPath ------------------------------
(* Node paths.  A path is the sequence of names from the world down; the      *)
(* world itself is <<>>.  Text form: "/" for the world, otherwise "/n1/n2".   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

World == <<>>
Last1(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)

RECURSIVE JoinNames(_)
JoinNames(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o JoinNames(Tail(p))
Text(p) == IF p = World THEN "/" ELSE JoinNames(p)
AttrText(p, a) == Text(p) \o "." \o a

Prefix(p, n) == SubSeq(p, 1, n)
IsPrefixOf(a, p) == Len(a) <= Len(p) /\ SubSeq(p, 1, Len(a)) = a
\* proper ancestor (the world is an ancestor of everything else)
IsAncestor(p, a) == Len(a) < Len(p) /\ IsPrefixOf(a, p)
ParentOf(p) == IF p = World THEN World ELSE Front1(p)
NameOf(p) == Last1(p)
RootOf(p) == IF p = World THEN World ELSE <<p[1]>>
\* nearest first, the world left out
Ancestors(p) == IF Len(p) < 2 THEN <<>> ELSE [i \in 1..(Len(p) - 1) |-> Prefix(p, Len(p) - i)]
ReplaceAncestor(p, old, new) == IF IsPrefixOf(old, p) THEN new \o SubSeq(p, Len(old) + 1, Len(p)) ELSE p
Trim(p, d) == IF d >= Len(p) THEN p ELSE Prefix(p, d)
Depth(p) == Len(p)

\* One step of a relative path
StepPath(cur, s) == CASE s = ".." -> ParentOf(cur)
                      [] s \in {".", ""} -> cur
                      [] OTHER -> Append(cur, s)
RECURSIVE ExpandSteps(_, _)
ExpandSteps(cur, steps) == IF steps = <<>> THEN cur ELSE ExpandSteps(StepPath(cur, Head(steps)), Tail(steps))
\* a path reference: [abs |-> BOOLEAN, steps |-> <<..>>]
ExpandRef(ref, at) == IF ref.abs THEN ref.steps ELSE ExpandSteps(at, ref.steps)

RECURSIVE SeqToText(_)
SeqToText(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "/" \o SeqToText(Tail(ss))

MapText(ps) == [i \in 1..Len(ps) |-> Text(ps[i])]
Range1(s) == {s[i] : i \in 1..Len(s)}
Paths(names, d) == UNION {[1..n -> names] : n \in 0..d}
=============================================================================
