----------------------------- MODULE NxtLegacy ------------------------------
(* Files of older format versions: which are accepted, what they mean, and    *)
(* the steps that turn them into files of the current version.                *)
(* An old file x: era, top (key -> text), refs (what it references, with the  *)
(* opinions stated there), by (their places in the order of their paths), meta (key -> text), starts (paths of start points),*)
(* nodes: path -> [f: field -> text, co: names, attrs: name -> [v, t, c]].    *)
EXTENDS NxtFile
Eras == <<"tree", "refdicts", "flat", "plain", "now">>
\* the current version is 1.cur
EraOf(maj, min, cur) ==
  IF maj = 0 THEN (IF min >= 39 THEN "tree" ELSE "tooold")
  ELSE IF maj > 1 \/ min > cur THEN "toonew"
  ELSE IF min <= 9 THEN "refdicts" ELSE IF min <= 14 THEN "flat" ELSE IF min = 15 THEN "plain" ELSE "now"
Refused(era) == era \in {"tooold", "toonew"}
\* names of things in the older eras
NodeKey(era, k) == IF era = "tree" THEN (CASE k = "compute" -> "code" [] OTHER -> k) ELSE k
MetaKey(era, k) == IF era \in {"tree", "refdicts"} THEN (CASE k = "position_data" -> "positions" [] k = "collapse_data" -> "collapse" [] OTHER -> k) ELSE k
Rekey(f, K(_)) == [n \in {K(k) : k \in DOMAIN f} |-> f[CHOOSE k \in DOMAIN f : K(k) = n]]
Put(f, k, v) == IF v = Absent THEN f ELSE [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Drop(f, ks) == [n \in DOMAIN f \ ks |-> f[n]]
\* texts of JSON lists and objects; ps: sequence of pairs ordered by key
RECURSIVE Commas(_)
Commas(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Commas(Tail(s))
JList(s) == "[" \o Commas(s) \o "]"
JObj(ps) == "{" \o Commas([i \in 1..Len(ps) |-> ps[i][1] \o ": " \o ps[i][2]]) \o "}"
OverText(r) == JObj((IF r.mute = Absent THEN <<>> ELSE <<<<"\"mute\"", r.mute>>>>) \o (IF r.solo = Absent THEN <<>> ELSE <<<<"\"solo\"", r.solo>>>>))
Paths0(refs) == IF refs = <<>> THEN Absent ELSE JList([i \in 1..Len(refs) |-> refs[i].path])
\* by: the places of the references in the order of their paths
ByPath(refs, by) == [i \in 1..Len(by) |-> refs[by[i]]]
Overs(refs, by) == LET s == SelectSeq(ByPath(refs, by), LAMBDA r : r.mute # Absent \/ r.solo # Absent) IN
  IF s = <<>> THEN Absent ELSE JObj([i \in 1..Len(s) |-> <<s[i].path, OverText(s[i])>>])
Aliases(refs, by) == LET s == SelectSeq(ByPath(refs, by), LAMBDA r : r.alias # Absent) IN
  IF s = <<>> THEN Absent ELSE JObj([i \in 1..Len(s) |-> <<s[i].path, s[i].alias>>])
Colors(refs, by) == LET s == SelectSeq(ByPath(refs, by), LAMBDA r : r.color # Absent) IN
  IF s = <<>> THEN Absent ELSE JObj([i \in 1..Len(s) |-> <<s[i].path, s[i].color>>])
\* --------------------------------------------------------------- the steps
\* nodes of a tree keep what they state; start points become flags of nodes
UpTree(x) == [x EXCEPT !.era = "refdicts", !.starts = {},
   !.nodes = [p \in DOMAIN x.nodes |->
      [f |-> LET g == Rekey(x.nodes[p].f, LAMBDA k : NodeKey("tree", k)) IN IF p \in x.starts THEN Put(g, "start_point", "true") ELSE g,
       co |-> x.nodes[p].co, attrs |-> x.nodes[p].attrs]]]
\* references become paths, the opinions stated with them become overrides
UpRefs(x) == [x EXCEPT !.era = "flat", !.refs = <<>>, !.by = <<>>,
   !.top = Put(Put(x.top, "references", Paths0(x.refs)), "comp_overrides", Overs(x.refs, x.by)),
   !.meta = Put(Put(Rekey(x.meta, LAMBDA k : MetaKey("refdicts", k)), "aliases", Aliases(x.refs, x.by)), "colors", Colors(x.refs, x.by))]
UpFlat(x) == [x EXCEPT !.era = "plain", !.top = Drop(x.top, {k \in {"mute", "solo"} : Get(x.top, k, Absent) = "false"})]
UpPlain(x) == [x EXCEPT !.era = "now"]
Up(x) == CASE x.era = "tree" -> UpTree(x) [] x.era = "refdicts" -> UpRefs(x) [] x.era = "flat" -> UpFlat(x) [] x.era = "plain" -> UpPlain(x) [] OTHER -> x
\* -------------------------------------------------- what a file says, by era
Says(x) ==
  [top |-> LET t == IF x.era \in {"tree", "refdicts"} THEN Put(Put(x.top, "references", Paths0(x.refs)), "comp_overrides", Overs(x.refs, x.by)) ELSE x.top IN t,
   meta |-> LET m == Rekey(x.meta, LAMBDA k : MetaKey(x.era, k)) IN
            IF x.era \in {"tree", "refdicts"} THEN Put(Put(m, "aliases", Aliases(x.refs, x.by)), "colors", Colors(x.refs, x.by)) ELSE m,
   nodes |-> [p \in DOMAIN x.nodes |->
       [f |-> LET g == Rekey(x.nodes[p].f, LAMBDA k : NodeKey(x.era, k)) IN IF p \in x.starts THEN Put(g, "start_point", "true") ELSE g,
        co |-> x.nodes[p].co, attrs |-> x.nodes[p].attrs]]]
=============================================================================
