---------------------------- MODULE ContainerCase ----------------------------
(***************************************************************************)
(* Conformance: every event is one container created by the real creator   *)
(* (in some packaging, under some schedule) and everything the real reader *)
(* answers about it.                                                       *)
(*                                                                         *)
(* event: built, opened - outcomes                                         *)
(*        c      - the logical container (see Logical) with packids, adds, *)
(*                 missing, dedup                                          *)
(*        dir, handles, addrs, fulls - the directory (see Directory)       *)
(*        reads  - sequence of << address, answer >>                       *)
(*        packs  - sequence of << pack id, answer of get_pack >>           *)
(*        idx    - what the reader shows of the indexes                    *)
(*        check  - answer of the verification: "ok"                        *)
(***************************************************************************)
EXTENDS Logical, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clause(n, b) == IF b THEN TRUE ELSE PrintT("CLAUSE " \o n) /\ FALSE

Judge(e) ==
  LET stored == TLCEval(Stored(e.c))
      used == TLCEval(Used(e.c))
  IN
  /\ Clause("built", e.built)
  /\ Clause("opened", e.opened)
  /\ Clause("addresses", AddressesOk(e.c, stored, used))
  /\ \A i \in 1..Len(e.reads) : Clause("content", AnswerOk(e.c, stored, used, e.reads[i][1], e.reads[i][2]))
  /\ \A i \in 1..Len(e.packs) : Clause("pack", PackAnswerOk(e.c, used, e.packs[i][1], e.packs[i][2]))
  /\ Clause("check", e.check = "ok")
  /\ Clause("rows", RowsReadOk(e.dir, e.handles, e.addrs, e.idx, e.fulls))
  /\ Clause("indexes", IndexesReadOk(e.dir, e.handles, e.idx, e.fulls))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
