------------------------------- MODULE MCLoad -------------------------------
(* Every small world of files that reference each other, loaded, and edited   *)
(* by adding and removing sub layers.                                         *)
EXTENDS NxtLoad, Json, TLC
CONSTANTS MaxOps, Menu
VARIABLES w, s, hist
vars == <<w, s, hist>>
T == <<"t.nxt">>  A == <<"d", "a.nxt">>  B == <<"b.nxt">>  DB == <<"d", "b.nxt">>  X == <<"d", "x.nxt">>  N == <<"n.nxt">>  RB == <<"r", "b.nxt">>
OkF(refs) == [st |-> "ok", refs |-> refs, to |-> ""]
Bad(st) == [st |-> st, refs |-> <<>>, to |-> ""]
\* what the top, a.nxt and b.nxt refer to
TopRefs == IF Menu = 1 THEN {<<"d/a.nxt", "b.nxt">>, <<"b.nxt", "$D/a.nxt">>, <<"d/x.nxt", "d/a.nxt">>}
           ELSE {<<"d/a.nxt">>, <<"d/a.nxt", "d/l.nxt">>, <<"b.nxt", "d/a.nxt">>, <<"t.nxt", "~/b.nxt">>, <<"gone.nxt", "%D%/a.nxt", "b.nxt">>}
ARefs == {<<>>, <<"b.nxt">>, <<"../b.nxt", "x.nxt">>, <<"../t.nxt", "b.nxt">>}
BRefs == {<<>>, <<"d/a.nxt">>, <<"gone.nxt", "b.nxt", "d/b.nxt">>}
Worlds == {[files |-> (T :> OkF(tr)) @@ (A :> OkF(ar)) @@ (B :> OkF(br)) @@ (DB :> OkF(<<"a.nxt">>)) @@ (X :> x)
                      @@ (<<"d", "l.nxt">> :> [st |-> "link", refs |-> <<>>, to |-> "../b.nxt"]) @@ (N :> OkF(<<"d/b.nxt">>)) @@ (RB :> OkF(<<"x.nxt">>)),
            env |-> "D" :> "d", home |-> "/", roots |-> rs] :
            tr \in TopRefs, ar \in ARefs, br \in BRefs, x \in {OkF(<<>>), Bad("corrupt"), Bad("newer")}, rs \in {<<>>, <<<<"r">>>>}}
Init == w \in Worlds /\ s = LoadTop(w, T) /\ hist = <<>>
CanAdd(k, ref) == /\ ~Mentions(s, k, ref) /\ LET q == Means(w, ref, Dir(s[k].f)) IN Readable(w, q) /\ q \notin FilesAbove(s, k)
                  /\ Len(s) < 7
Next == /\ Len(hist) < MaxOps /\ w' = w
        /\ \/ \E k \in 1..Len(s) : \E ref \in {"/d/b.nxt", "d/../b.nxt"} : CanAdd(k, ref) /\ s' = AddSub(w, s, k, ref)
                 /\ hist' = Append(hist, [do |-> "add", k |-> k, ref |-> ref])
           \/ \E k \in 2..Len(s) : s' = Remove(s, k) /\ hist' = Append(hist, [do |-> "remove", k |-> k, ref |-> ""])
           \/ /\ \A j \in 1..Len(s) : s[j].f # N
              /\ s' = AddTop(w, s, N) /\ hist' = Append(hist, [do |-> "top", k |-> 0, ref |-> "n.nxt"])
Spec == Init /\ [][Next]_vars
ParentsBefore == \A k \in 1..Len(s) : s[k].par < k /\ (k > 1 => s[k].par > 0)
\* the layers of one reference stand together, the weaker reference's behind
Together == \A k \in 1..Len(s) : LET u == Under(s, k) IN \A j \in u, m \in 1..Len(s) : m >= k /\ m <= j => m \in u
InOrder == \A j, m \in 2..Len(s) : j < m /\ s[j].par = s[m].par =>
             \E a, b \in 1..Len(s[s[j].par].refs) : a < b /\ s[s[j].par].refs[a] = s[j].ref /\ s[s[j].par].refs[b] = s[m].ref
NoCycle == \A k \in 1..Len(s) : \A j \in Above(s, k) : j # k => s[j].f # s[k].f
OnlyReadable == \A k \in 1..Len(s) : Readable(w, s[k].f)
\* every reference that can be loaded is loaded
AllLoaded == \A k \in 1..Len(s) : \A r \in 1..Len(s[k].refs) :
   LET q == Means(w, s[k].refs[r], Dir(s[k].f)) IN
   Readable(w, q) /\ q \notin FilesAbove(s, k) => \E j \in 1..Len(s) : s[j].par = k /\ s[j].f = q
Kept == \A k \in 1..Len(s) : hist = <<>> => s[k].refs = RefsOf(w, s[k].f)
\* what is saved loads as what there is
Reloads == OneFile(s) => Shape(LoadTop(Saved(w, s), s[1].f)) = Shape(s)
Undo == \A k \in 1..Len(s) : \A ref \in {"/d/b.nxt"} : CanAdd(k, ref) => Remove(AddSub(w, s, k, ref), k + 1) = s
WorldJ == [files |-> [p \in {Text(q) : q \in DOMAIN w.files} |-> w.files[CHOOSE q \in DOMAIN w.files : Text(q) = p]],
           env |-> w.env, home |-> w.home, roots |-> MapText(w.roots), top |-> Text(T)]
Show == Len(hist) = MaxOps => PrintT("@@SCN" \o ToJson([w |-> WorldJ, ops |-> hist]))
=============================================================================
