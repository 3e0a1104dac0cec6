----------------------------- MODULE TracePath -----------------------------
(* Every recorded call of the implementation's path functions against the    *)
(* algebra of NxtPath.                                                        *)
EXTENDS NxtPath, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l
vars == <<i, l>>
Chk(name, ok) == IF ok THEN {} ELSE {name}

PathFails(c) ==
  LET p == c.p IN
    Chk("Harness_Text", c.text = Text(p))
    \cup Chk("SplitIntoNames", p = World \/ c.ns = p)
    \cup Chk("JoinBack", c.joined = c.text)
    \cup Chk("Parent", p = World \/ c.parent = Text(ParentOf(p)))
    \cup Chk("Name", p = World \/ c.name = NameOf(p))
    \cup Chk("Root", c.root = Text(RootOf(p)))
    \cup Chk("AncestorsAreProperPrefixes", c.ancestors = MapText(Ancestors(p)))
    \cup Chk("Depth", c.depth = Depth(p))
    \cup Chk("TrimKeepsDepth", \A d \in 1..Len(c.trims) : c.trims[d] = Text(Trim(p, d - 1)))
    \cup Chk("AbsoluteStaysAbsolute", c.absexp = c.text)
PairFails(c) ==
    Chk("Harness_Text", c.text = Text(c.p) /\ c.qtext = Text(c.q))
    \cup Chk("BelowOnlyAtNameBoundary", c.isanc = IsAncestor(c.p, c.q))
    \cup Chk("JoinPaths", c.join = Text(c.q \o c.p))
    \cup Chk("JoinManyNames", c.joinmany = Text(c.q \o c.p))
ReplFails(c) ==
    Chk("Harness_Text", c.text = Text(c.p) /\ c.otext = Text(Prefix(c.p, c.k)) /\ c.ntext = Text(c.new))
    \cup Chk("ReplaceAncestorPrefixOnly", c.res = Text(ReplaceAncestor(c.p, Prefix(c.p, c.k), c.new)))
RelFails(c) ==
    Chk("Harness_Text", c.rel = SeqToText(c.steps) /\ c.text = Text(c.p))
    \cup Chk("RelativeIsStepping", c.res = Text(ExpandSteps(c.p, c.steps)))
AttrFails(c) ==
    Chk("MakeAttrPath", c.made = c.base \o "." \o c.attr)
    \cup Chk("AttrSplitNode", c.node = c.base /\ c.pnode = c.base)
    \cup Chk("AttrSplitName", c.name = c.attr /\ c.pattr = c.attr)
    \cup Chk("IsAttrPath", c.is)
    \cup Chk("AttrPathNames", c.p = <<"..rel">> \/ c.p = World \/ c.ns = c.p)
Fails(c) == CASE c.op = "path" -> PathFails(c)
              [] c.op = "pair" -> PairFails(c)
              [] c.op = "repl" -> ReplFails(c)
              [] c.op = "rel" -> RelFails(c)
              [] c.op = "attr" -> AttrFails(c)
              [] c.op = "crash" -> {"UnexpectedError"}
Init == i \in 1..Len(Cases) /\ l = 0
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL" \o ToJson([case |-> i, line |-> l + 1, clauses |-> f]))
Next == /\ l < Len(Cases[i].ops)
        /\ Report(Fails(Cases[i].ops[l + 1]))
        /\ l' = l + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
=============================================================================
