------------------------------ MODULE NxtPure -------------------------------
(* Building, reading and executing against the saved graph.  What a           *)
(* composite shows is a function of the layers and the layer it is built      *)
(* from; only a run changes what it shows, and only what itself shows.        *)
(* st: saved: layer -> data;  held: composites in use, oldest first, each     *)
(* [idx, rt: made by a run, shows]                                            *)
EXTENDS Naturals, Sequences
CONSTANT Shows(_, _)       \* saved, idx
Begin(saved) == [saved |-> saved, held |-> <<>>]
Build(st, idx) == [st EXCEPT !.held = Append(st.held, [idx |-> idx, rt |-> FALSE, shows |-> Shows(st.saved, idx)])]
Read(st) == st
\* a run of a composite makes a new one, of its own; a run of such a one goes on
Run(st, k, after) ==
  IF st.held[k].rt THEN [st EXCEPT !.held[k].shows = after]
  ELSE [st EXCEPT !.held = Append(st.held, [idx |-> st.held[k].idx, rt |-> TRUE, shows |-> after])]
\* a run that gives nothing back
RunLost(st) == st
Drop(st, k) == [st EXCEPT !.held = SubSeq(st.held, 1, k - 1) \o SubSeq(st.held, k + 1, Len(st.held))]
Edit(st, l, v) == [st EXCEPT !.saved[l] = v, !.held = <<>>]
=============================================================================
