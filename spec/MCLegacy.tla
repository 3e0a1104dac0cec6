------------------------------ MODULE MCLegacy ------------------------------
(* Small files of every older era, converted step by step.                    *)
EXTENDS NxtLegacy, TLC, Json
VARIABLES x, first, n
vars == <<x, first, n>>
Fun(k, v) == IF v = Absent THEN [z \in {} |-> ""] ELSE [z \in {k} |-> v]
NoF == [z \in {} |-> ""]
Ref(p, m, s, a, c) == [path |-> p, mute |-> m, solo |-> s, alias |-> a, color |-> c]
RefLists == {<<>>, <<Ref("\"b.nxt\"", "true", Absent, Absent, "\"#fff\""), Ref("\"a.nxt\"", Absent, "false", "\"nick\"", Absent)>>,
             <<Ref("\"a.nxt\"", Absent, Absent, Absent, Absent)>>}
NodeMenu(e) == {<<NoF, {}>>, <<Fun(IF e = "tree" THEN "compute" ELSE "code", "[\"x = 1\"]"), {"/a"}>>, <<Fun("enabled", "false"), {}>>,
                <<Fun("instance", "\"/b\""), {"/a", "/a/b"}>>, <<Fun("execute_in", "\"/b\""), {}>>, <<Fun("comment", "\"say\""), {"/b"}>>}
Node(f, co, attrs) == [f |-> f, co |-> co, attrs |-> attrs]
NoAttrs == [z \in {} |-> NoAttr]
Attr(v, t, c) == [z \in {"y"} |-> [v |-> v, t |-> t, c |-> c]]
Files == UNION {{[era |-> e, top |-> t, refs |-> IF e \in {"tree", "refdicts"} THEN r ELSE <<>>,
           by |-> IF e \in {"tree", "refdicts"} THEN (IF Len(r) = 2 THEN <<2, 1>> ELSE [j \in 1..Len(r) |-> j]) ELSE <<>>,
           meta |-> m, starts |-> IF e = "tree" THEN k[2] ELSE {},
           nodes |-> ("/a" :> Node(k[1], co, at)) @@ ("/a/b" :> Node(Fun("comment", "\"c\""), <<>>, NoAttrs)) @@ ("/b" :> Node(NoF, <<>>, NoAttrs))] :
           t \in {NoF, Fun("mute", "false"), Fun("solo", "true")} \cup (IF e \in {"tree", "refdicts"} THEN {} ELSE {Fun("references", "[\"b.nxt\", \"a.nxt\"]")}),
           r \in RefLists,
           m \in IF e \in {"tree", "refdicts"} THEN {NoF, Fun("position_data", "{\"/a\": [1, 2]}"), Fun("collapse_data", "{\"/a\": true}")}
                 ELSE {NoF, Fun("positions", "{\"/a\": [1, 2]}"), Fun("aliases", "{\"a.nxt\": \"nick\"}")},
           k \in NodeMenu(e), co \in {<<"b">>, <<"z", "b">>}, at \in {NoAttrs, Attr("\"1\"", "\"int\"", Absent), Attr("0", Absent, "\"c\"")}} : e \in {Eras[j] : j \in 1..5}}
Init == x \in Files /\ first = x /\ n = 0
Next == x.era # "now" /\ x' = Up(x) /\ n' = n + 1 /\ UNCHANGED first
Spec == Init /\ [][Next]_vars
SameMeaning == Content(Says(first), Says(x), "\"l\"") = {} /\ Orders(Says(first), Says(x)) = {}
Ends == n <= 4
Show == n = 0 => PrintT("@@SCN" \o ToJson(x))
=============================================================================
