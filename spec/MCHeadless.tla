----------------------------- MODULE MCHeadless ------------------------------
(* A small graph started from outside in every way: all short parameter       *)
(* lists, starts asked for or not, ways the code can end, from the command    *)
(* line or as a sub-graph of a node.                                          *)
EXTENDS NxtHeadless, TLC, Json
CONSTANTS MaxArgs
VARIABLES g, m, how, first
vars == <<g, m, how, first>>
NoInst == [k |-> None, s |-> <<>>]
S(k, a, v) == [k |-> k, a |-> a, v |-> v, ps |-> <<>>, pr |-> <<>>, safe |-> FALSE, gs |-> <<>>, start |-> ""]
See == S("see", "", "")
WorldMenu == << <<See>>, <<See, S("set", "w", "ww")>>, <<S("exitgraph", "", "")>>, <<S("raise", "", "")>> >>
AMenu == << <<See, S("cat", "x", "!")>>, <<S("exitnode", "", "")>>, <<See, S("set", "x", "no"), S("exitgraph", "", "")>>,
            <<See, S("raise", "", "")>> >>
BMenu == << <<See, S("app", "x", "7")>> >>
Node(p, code, attrs, start) == [p |-> p, inst |-> NoInst, code |-> code, comment |-> None, enabled |-> None, exec |-> None,
   start |-> start, attrs |-> attrs, co |-> <<>>]
At(n, v) == <<[n |-> n, v |-> v, t |-> None, c |-> None]>>
Key(x, n) == x \o ToString(n)
LayersOf(w, a, sp) == <<[id |-> "l0.nxt", mute |-> FALSE, solo |-> FALSE, nodes |-> <<
   Node(World, Key("w", w), At("w", "v"), None),
   Node(<<"a">>, Key("a", a), At("x", "v"), IF sp THEN "true" ELSE None),
   Node(<<"a", "b">>, "b1", <<>>, None),
   Node(<<"c">>, None, At("x", "c"), None)>>]>>
Table(w, a) == [k \in {Key("w", w), Key("a", a), "b1"} |-> CASE k = Key("w", w) -> WorldMenu[w] [] k = "b1" -> BMenu[1] [] OTHER -> AMenu[a]]
MkG(w, a, sp) == LET ls == IndexAll(LayersOf(w, a, sp)) IN
  Graph(ls, CHOOSE c \in Composites(ls) : TRUE, Table(w, a), [x \in {} |-> x])
Orders == [t \in {"/a", "/a/b", "/c"} |-> CASE t = "/a" -> <<"/a", "/a/b">> [] t = "/a/b" -> <<"/a/b">> [] OTHER -> <<"/c">>]
Files == [n \in {"p.json", "bad.json"} |-> IF n = "bad.json" THEN [ok |-> FALSE, ps |-> <<>>]
   ELSE [ok |-> TRUE, ps |-> <<[k |-> "/a.x", v |-> "fx"], [k |-> "/a", v |-> "fy"], [k |-> "z.x", v |-> "fz"]>>]]
Tokens == {"/a.x", "/.w", "/c.n", "/zz.x", "/a", "/a.", "a.x", "v1", "v2", "p.json", "bad.json"}
Keys == {"/a.x", "/.w", "/c.n", "/zz.x", "/a", "a.x"}
\* longer lists: pairs, the keys of which may be anything, and lists with one too many
Pairs(n) == {q \in [1..n -> Keys \cup {"v1", "v2"}] : \A k \in 1..n : (k % 2 = 1) = (q[k] \in Keys)}
ArgLists == UNION {[1..n -> Tokens] : n \in 0..2} \cup UNION {Pairs(n) : n \in 3..MaxArgs}
Starts == {"", "/a/b", "/c", "/zz", "a"}
\* what the calling node has: a name the graph knows, one it does not
Own1 == [a \in {"w", "mine"} |-> "o" \o a]
Subs == { <<>>, <<[p |-> "/a", a |-> "x", v |-> "sx"]>>, <<[p |-> "/", a |-> "w", v |-> "lost"]>> }
Calls == {h \in [k : {"cli"}, args : ArgLists, start : Starts, sub : {<<>>}] : Len(h.args) < 3 \/ h.start \in {"", "/c"}} \cup [k : {"sub"}, args : {<<>>}, start : Starts, sub : Subs]
Graphs == [w : 1..Len(WorldMenu), a : 1..Len(AMenu), sp : BOOLEAN]
Begin(gr, h) == IF h.k = "cli" THEN LaunchArgs(gr, h.start, h.args, Files, Orders)
                ELSE SubLaunch(gr, Own1, <<"mine", "w">>, h.start, h.sub, Orders)
Init == \E q \in Graphs : first = q /\ g = MkG(q.w, q.a, q.sp) /\ m = M0 /\ how = [k |-> "none"]
Next == /\ UNCHANGED <<g, first>>
        /\ IF how.k = "none" THEN \E h \in Calls : how' = h /\ m' = Begin(g, h)
           ELSE Running(m) /\ m' = Step(g, m) /\ how' = how
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------ what is promised of it
Over == how.k # "none" /\ ~Running(m)
Paired == how.k = "cli" /\ Len(how.args) % 2 = 0
Given(t) == {k \in 1..(Len(how.args) \div 2) : how.args[2 * k - 1] = t}
LastGiven(t) == how.args[2 * (CHOOSE k \in Given(t) : \A j \in Given(t) : j <= k)]
Guarantees ==
  \* malformed lists and missing starts: nothing runs, nothing is set
  /\ (how.k = "cli" /\ (Len(how.args) > 1 /\ Len(how.args) % 2 = 1)) => m.out = "Refused"
  /\ (Paired /\ \E k \in 1..Len(how.args) : k % 2 = 1 /\ how.args[k] \in {"/a", "/a.", "a.x", "v1", "v2", "p.json", "bad.json"}) => m.out = "Refused"
  /\ (how.k # "none" /\ how.start \in {"/zz", "a"}) => m.out = "Refused"
  /\ (how.k # "none" /\ how.start = "" /\ ~first.sp) => m.out = "Refused"
  /\ m.out = "Refused" => m.ran = <<>> /\ m.vals = Empty /\ m.cache = Empty
  \* the attributes named have the values given before any code runs, the rest what the graph says
  /\ (Paired /\ m.out # "Refused" /\ m.ran = <<>> /\ m.at = "") =>
       \A t \in {"/a.x", "/.w", "/c.n"} : LET s == Split(t) IN
          IF Given(t) # {} THEN Raw(g, m, g.byText[s.p], s.a) = (IF t = "/.w" /\ first.w = 2 /\ (m.stk = <<>> \/ Top(m).kind # "world" \/ Top(m).pc > 2) THEN "ww" ELSE LastGiven(t))
          ELSE t = "/.w" \/ Raw(g, m, g.byText[s.p], s.a) = (CASE t = "/a.x" -> "v" [] OTHER -> None)
  \* a run starts where it was asked to
  /\ m.ran # <<>> => m.ran[1] = (IF how.start = "" THEN "/a" ELSE how.start)
  \* it is good exactly when nothing failed
  /\ (Over /\ m.out # "Refused") => (Good(m) <=> ~(first.w = 4 \/ (first.w # 3 /\ first.a = 4 /\ how.start \in {"", "/a"})))
  \* the results hold every node that ran
  /\ (Over /\ Good(m)) => DOMAIN Results(m) = Elems(m.ran)
  \* the calling node gets back what the graph's world node ended up with
  /\ (Over /\ how.k = "sub" /\ Good(m)) =>
       Back(g, m, Own1) = [a \in {"w", "mine"} |-> IF a = "w" /\ first.w = 2 THEN "ww" ELSE Own1[a]]
\* every graph with a few of the calls is replayed in the code
Show == IF ~Over THEN TRUE
        ELSE PrintT("@@SCN" \o ToJson([k |-> how.k, out |-> m.out, layers |-> LayersOf(first.w, first.a, first.sp), w |-> WorldMenu[first.w], a |-> AMenu[first.a], b |-> BMenu[1],
                args |-> how.args, start |-> how.start, sub |-> how.sub]))
=============================================================================
