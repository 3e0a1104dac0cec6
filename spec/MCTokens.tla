----------------------------- MODULE MCTokens -----------------------------
(* Every short text of token markers, names and paths in every small graph of *)
(* attribute references.                                                      *)
EXTENDS NxtTokens, Json
CONSTANT MaxPieces
VARIABLES t, n, env, at
vars == <<t, n, env, at>>
PieceSet == {"${", "}", "x", "y", "/a.", "${y}", "..", "$"}
A == <<"a">>  B == <<"a", "b">>
XMenu == {"v", "", "${y}", "x", "$"}
YMenu == {"w", "x", "${x}", "}${", "${/a/b.x}", "${${x}}"}
Graph(e) == [vals |-> (A :> ("x" :> e[1] @@ "y" :> e[2])) @@ (B :> ("x" :> "${...y}" @@ "y" :> "u")), files |-> <<>>, cut |-> ""]
G == Graph(env)
Init == t = "" /\ n = 0 /\ env \in XMenu \X YMenu /\ at \in {A, B}
Next == n < MaxPieces /\ n' = n + 1 /\ UNCHANGED <<env, at>> /\ \E x \in PieceSet : t' = t \o x
Spec == Init /\ [][Next]_vars
R(x) == Resolve(G, at, x, {})
Plain(x) == Tokens(x) = <<>>
Untouched == Plain(t) => R(t) = t
\* what stands next to a text does not change what it resolves to
Beside == \A u \in {"x", "${x}", "}"} : Matched(t) /\ (t = "" \/ Char(t, Len(t)) # "$") => R(t \o u) = R(t) \o R(u)
                                          /\ R(u \o t) = R(u) \o R(t)
Free(x) == \A k \in 1..Len(x) : Char(x, k) \notin {"$", "{", "}"}
\* inner tokens are read first
Inner == Matched(t) /\ ~Cyclic(G, at, "${" \o t \o "}") /\ Free(R(t)) /\ t # "" /\ R(t) # "" /\ Tokens("${" \o t \o "}") = <<"${" \o t \o "}">>
         => R("${" \o t \o "}") = R("${" \o R(t) \o "}")
Innermost == Matched(t) => (Tokens(t) = <<>>) = (Atomic(t) = {})
Tells == R("${/a/b.y}") = "u"
Show == IF env = <<"v", "w">> /\ at = A THEN PrintT("@@TXT" \o ToJson([t |-> t])) ELSE TRUE
=============================================================================
