------------------------------- MODULE MCFile -------------------------------
(* Every content of one small layer: loaded, saved, loaded again.             *)
EXTENDS NxtFile, TLC, Json
VARIABLES file, layer, step
vars == <<file, layer, step>>
Vals == {Absent, "null", "\"\"", "0", "false", "[]", "{}", "\"v\"", "[1]"}
Words == {Absent, "\"\"", "\"w\""}
Fun1(k, v) == IF v = Absent THEN [x \in {} |-> ""] ELSE [x \in {k} |-> v]
Node(f, co, attrs) == [f |-> f, co |-> co, attrs |-> attrs]
NoF == [x \in {} |-> ""]
Tops == {Fun1("mute", "true"), NoF, Fun1("references", "[]"), Fun1("alias", "\"other\""), Fun1("lock", "true"), Fun1("color", "\"#fff000\"")}
Metas == {NoF, Fun1("custom", "{\"k\": [1]}"), Fun1("positions", "{}"), Fun1("positions", "{\"/a\": [1, 2]}")}
Files == {[top |-> t, meta |-> m,
           nodes |-> [p \in {"/a", "/a/b"} |-> IF p = "/a" THEN Node(Fun1(k[1], k[2]), co, [x \in {"x"} |-> a])
                                               ELSE Node(NoF, <<>>, [x \in {} |-> NoAttr])]]
          : t \in Tops, m \in Metas, a \in [v : Vals, t : Words, c : Words],
            k \in {<<"enabled", "false">>, <<"enabled", "null">>, <<"comment", "\"\"">>, <<"code", "[\"\"]">>, <<"code", "[]">>, <<"instance", "\"\"">>,
                   <<"start_point", "false">>, <<"execute_in", "\"/zz\"">>},
            co \in {<<>>, <<"z", "z">>, <<"z", "b">>}}
Kids == [p \in {"/a", "/a/b"} |-> IF p = "/a" THEN {"b"} ELSE {}]
\* the model's own loading and saving
FromFile(f) == [f EXCEPT !.nodes["/a"].co = LET d == Dedupe(f.nodes["/a"].co) IN IF "b" \in Elems(d) THEN d ELSE Append(d, "b")]
ToFile(x) == [x EXCEPT !.nodes["/a"].attrs["x"].v = Canon(x.nodes["/a"].attrs["x"].v)]
Init == file \in Files /\ layer = file /\ step = 0
Next == /\ step < 4 /\ step' = step + 1
        /\ IF step % 2 = 0 THEN layer' = FromFile(file) /\ file' = file ELSE file' = ToFile(layer) /\ layer' = layer
Spec == Init /\ [][Next]_vars
RoundTrip == /\ step \in {1, 3} => Load(file, layer, "\"l\"", Kids) = {}
             /\ step \in {2, 4} => Save(layer, file, "\"l\"") = {}
Stable == [][step >= 2 => Content(file, file', "\"l\"") = {} /\ Content(layer, layer', "\"l\"") = {} /\ Orders(layer, layer') = {}]_vars
Show == IF step = 0 THEN PrintT("@@SCN" \o ToJson(file)) ELSE TRUE
=============================================================================
