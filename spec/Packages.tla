------------------------------ MODULE Packages -------------------------------
(***************************************************************************)
(* Worlds of files holding the packs of one logical container, the         *)
(* operations which repackage it (concatenation, embedding, moving,        *)
(* copying, rewriting of locations) or damage it (files removed, replaced  *)
(* by a directory or by another valid pack, bytes altered), and the        *)
(* resolution of a pack by a reader.  (C10, C11)                           *)
(*                                                                         *)
(* A pack instance is << uuid, damaged >>.  A file is a bare pack or a     *)
(* container file of several packs, possibly embedded at the end of        *)
(* something else (pre).  A manifest instance carries the recorded         *)
(* locations: loc.                                                         *)
(* Names are << directory, base name >>, with two directories "" and "sub";*)
(* a location is such a pair too, relative to the folder of the file which *)
(* is opened.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Rule \* "good", or a planted design fault

NoName == << "", "" >>
All == { "1", "2", "3" }
Located == All \cup { "D" }
Ids(k) == { "M", "D" } \cup (IF k >= 1 THEN { "1" } ELSE {}) \cup (IF k >= 2 THEN { "2" } ELSE {}) \cup (IF k >= 3 THEN { "3" } ELSE {})
NoLoc == [u \in Located |-> NoName]
None == [k |-> "none", pre |-> FALSE, bare |-> FALSE, ps |-> {}, loc |-> NoLoc]
Folder == [None EXCEPT !.k = "dir"]
File(bare, us) == [None EXCEPT !.k = "file", !.bare = bare, !.ps = { << u, FALSE >> : u \in us }]
Has(f, u) == \E b \in BOOLEAN : << u, b >> \in f.ps
Bad(f, u) == << u, TRUE >> \in f.ps
Uuids(f) == { x[1] : x \in f.ps }

\* ------------------------------------------------------------ creation
InitLoc(m, k) ==
  [u \in Located |->
     CASE u = "D" /\ m \in { "none", "manual" } -> << "", "d" >>
       [] u = "1" /\ k >= 1 /\ m \in { "two", "none" } -> << "", "c" >>
       [] u = "1" /\ k >= 1 /\ m = "manual" -> << "", "p1" >>
       [] u = "2" /\ k >= 2 -> << "", "p2" >>
       [] u = "3" /\ k >= 3 -> << "", "p3" >>
       [] OTHER -> NoName]
InitFs(m, k, places) ==
  [x \in places |->
     IF x[1] # "" THEN None
     ELSE CASE x[2] = "out" /\ m = "one" -> [File(FALSE, { "M", "D", "1" }) EXCEPT !.loc = InitLoc(m, k)]
            [] x[2] = "out" /\ m = "two" -> [File(FALSE, { "M", "D" }) EXCEPT !.loc = InitLoc(m, k)]
            [] x[2] = "out" /\ m \in { "none", "manual" } -> [File(TRUE, { "M" }) EXCEPT !.loc = InitLoc(m, k)]
            [] x[2] = "c" /\ m \in { "two", "none" } -> File(FALSE, { "1" })
            [] x[2] = "d" /\ m \in { "none", "manual" } -> File(TRUE, { "D" })
            [] x[2] = "p1" /\ m = "manual" /\ k >= 1 -> File(TRUE, { "1" })
            [] x[2] = "p2" /\ k >= 2 -> File(TRUE, { "2" })
            [] x[2] = "p3" /\ k >= 3 -> File(TRUE, { "3" })
            [] OTHER -> None]

\* ------------------------------------------------------------ operations
\* o = [op, src (sequence of names), dst, u, loc]
Decoy(kind) == IF kind = "whole" THEN File(FALSE, { "xM", "xD", "x1" }) ELSE File(TRUE, { "x1" })
Apply(w, o) ==
  LET a == o.src[1] IN
  CASE o.op = "concat" ->
         LET us == UNION { w[o.src[i]].ps : i \in 1..Len(o.src) }
             ms == { i \in 1..Len(o.src) : Has(w[o.src[i]], "M") }
         IN [w EXCEPT ![o.dst] = [None EXCEPT !.k = "file", !.ps = us,
                                              !.loc = IF ms = {} THEN NoLoc ELSE w[o.src[CHOOSE i \in ms : TRUE]].loc]]
    [] o.op = "prefix" -> [w EXCEPT ![a].pre = TRUE]
    [] o.op = "move" -> [w EXCEPT ![o.dst] = w[a], ![a] = None]
    [] o.op = "copy" -> [w EXCEPT ![o.dst] = w[a]]
    [] o.op = "remove" -> [w EXCEPT ![a] = None]
    [] o.op = "mkdir" -> [w EXCEPT ![a] = Folder]
    [] o.op = "other" -> [w EXCEPT ![a] = Decoy(o.u)]
    [] o.op = "damage" -> [w EXCEPT ![a].ps = (@ \ { << o.u, FALSE >> }) \cup { << o.u, TRUE >> }]
    [] o.op = "setloc" -> [w EXCEPT ![a].loc[o.u] = o.loc]

Op(op, src, dst, u, loc) == [op |-> op, src |-> src, dst |-> dst, u |-> u, loc |-> loc]
IsFile(w, x) == w[x].k = "file"
\* ------------------------------------------------------------ reading
Join(d, x) == IF d = "" THEN x ELSE IF x[1] = "" THEN << d, x[2] >> ELSE NoName
Place(w, main, u) ==
  LET t == Join(main[1], w[main].loc[u])
      there == t \in DOMAIN w /\ IsFile(w, t) /\ (Has(w[t], u) \/ (Rule = "nouuid" /\ w[t].ps # {}))
      inside == Has(w[main], u)
  IN IF Rule = "locfirst" THEN (IF there THEN t ELSE IF inside THEN main ELSE NoName)
     ELSE IF inside THEN main ELSE IF there /\ ~(Rule = "headonly" /\ w[t].pre) THEN t ELSE NoName
Missing(w, main, k) == { u \in Ids(k) \ { "M", "D" } : Place(w, main, u) = NoName }
\* the file can be opened as a container
Opens(w, main) == IsFile(w, main) /\ Has(w[main], "M") /\ Place(w, main, "D") # NoName
\* packs whose instance found by the reader is damaged
Damaged(w, main, k) == { u \in Ids(k) : LET p == IF u = "M" THEN main ELSE Place(w, main, u)
                                         IN p # NoName /\ Bad(w[p], u) }
\* damaged instances in the file at hand which the container does not use
Stray(w, main) == \E x \in w[main].ps : x[2] /\ Place(w, main, x[1]) # main

=============================================================================
