---------------------------- MODULE PackagingCase ----------------------------
(***************************************************************************)
(* Conformance: a history of operations was realised on disk with the real *)
(* creator and tools, then the file `main` was opened and read.  The world *)
(* after the history is computed here (Packages), and tells which packs    *)
(* are missing; the answers are those of the logical container (Logical).  *)
(*                                                                         *)
(* event: mode, n, hist, main - the history                                *)
(*        names  - model base name -> real base name (for the locations)   *)
(*        ids    - uuid -> pack id ; uuids, sizes, groups - uuid -> what   *)
(*                 the description of the pack has to say                  *)
(*        done   - the outcome of each operation: << "ok" >> ...           *)
(*        dead   - "" or how reading crashed                               *)
(*        and the fields of ContainerCase                                  *)
(***************************************************************************)
EXTENDS Logical, Packages, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clause(n, b) == IF b THEN TRUE ELSE PrintT("CLAUSE " \o n) /\ FALSE

Places == { "", "sub" } \X { "out", "c", "d", "p1", "p2", "p3", "x" }
RECURSIVE World(_, _, _)
World(e, w, i) == IF i > Len(e.hist) THEN w ELSE World(e, TLCEval(Apply(w, e.hist[i])), i + 1)

LocText(e, x) == IF x = NoName THEN "" ELSE IF x[1] = "" THEN e.names[x[2]] ELSE x[1] \o "/" \o e.names[x[2]]
\* the description which comes with a missing pack
Described(e, w, id, got) ==
  LET u == CHOOSE u \in Ids(e.n) \ { "M", "D" } : e.ids[u] = id
  IN got = << "missing", e.uuids[u], LocText(e, w[e.main].loc[u]), id, e.sizes[u], 99, e.groups[u] >>

Judge(e) ==
  LET w == TLCEval(World(e, InitFs(e.mode, e.n, Places), 1))
      contents == Ids(e.n) \ { "M", "D" }
      miss == { e.ids[u] : u \in Missing(w, e.main, e.n) }
      bad == Damaged(w, e.main, e.n)
      badids == { e.ids[u] : u \in bad \ { "M", "D" } }
      c == [e.c EXCEPT !.missing = SetToSeq(miss)]
      stored == TLCEval(Stored(c))
      used == TLCEval(Used(c))
  IN
  /\ Clause("built", e.built)
  /\ Clause("operations", \A i \in 1..Len(e.done) : e.done[i][1] = "ok")
  /\ Clause("dead", e.dead = "")
  /\ IF ~Opens(w, e.main) THEN Clause("refused", ~e.opened)
     ELSE IF bad \cap { "M", "D" } # {} THEN Clause("damaged", ~e.opened \/ e.check # "ok")
     ELSE
       /\ Clause("opened", e.opened)
       /\ Clause("fresh", e.hist = <<>> => miss = {})
       /\ Clause("addresses", AddressesOk(c, stored, used))
       /\ \A i \in 1..Len(e.reads) : LET id == e.reads[i][1][1] IN
            id \notin badids => /\ Clause("content", AnswerOk(c, stored, used, e.reads[i][1], e.reads[i][2]))
                                /\ id \in miss => Clause("description", Described(e, w, id, e.reads[i][2]))
       /\ \A i \in 1..Len(e.packs) : LET id == e.packs[i][1] IN
            id \notin badids => /\ Clause("pack", PackAnswerOk(c, used, id, e.packs[i][2]))
                                /\ id \in miss => Clause("pack description", Described(e, w, id, e.packs[i][2]))
       /\ Clause("check", IF bad # {} THEN e.check # "ok" ELSE Stray(w, e.main) \/ e.check = "ok")
       /\ Clause("rows", RowsReadOk(e.dir, e.handles, e.addrs, e.idx, e.fulls))
       /\ Clause("indexes", IndexesReadOk(e.dir, e.handles, e.idx, e.fulls))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
