---------------------------- MODULE ManifestCase ----------------------------
(***************************************************************************)
(* Conformance of histories of location rewrites on real manifests.  Every *)
(* event is one history; the state of Manifest is refined by the bytes.    *)
(*                                                                         *)
(* event: man    - the manifest pack at the start: [base, len, segs] (base *)
(*                 is its position in the file, which holds other packs)   *)
(*        steps  - sequence of                                             *)
(*          uuid, loc - what was asked (bytes)                             *)
(*          res       - << "ok", kind, old location >>, << "none" >>, ...  *)
(*          diffs     - the bytes of the file which changed:               *)
(*                      << position, new bytes >>, and whether its size did*)
(*          sum       - blake3 of the checked bytes (masked) after the step*)
(*          read      - what the reader shows of the manifest afterwards   *)
(*          answers   - the logical container read afterwards (see Logical)*)
(*        c, dir... - the logical container                                *)
(*        inside - uuids of the packs stored in the same file              *)
(***************************************************************************)
EXTENDS JbkFormat, Logical, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clause(n, b) == IF b THEN TRUE ELSE PrintT("CLAUSE " \o n) /\ FALSE

\* the block of a pack with another location
Block(P, i, loc) == LET body == Cut(P, InfoPos(P, i), 38) \o << Len(loc) >> \o loc \o Zeros(213 - Len(loc))
                    IN body \o CrcBytes(body)
OldBlock(P, i, loc, ch) == IF ch THEN Block(P, i, loc) ELSE Cut(P, InfoPos(P, i), 256)
\* a block after the differences
Patched(P, i, old, diffs) ==
  LET at == P.base + InfoPos(P, i)
      new == [k \in 0..255 |-> LET c == { j \in 1..Len(diffs) : diffs[j][1] <= at + k /\ at + k < diffs[j][1] + Len(diffs[j][2]) }
                               IN IF c = {} THEN -1 ELSE LET j == CHOOSE x \in c : TRUE IN diffs[j][2][at + k - diffs[j][1] + 1]]
  IN [k \in 1..256 |-> IF new[k - 1] = -1 THEN old[k] ELSE new[k - 1]]

\* what the reader has to show about pack i
Shown(P, f, loc) == [uuid |-> f.uuid, id |-> f.id, kind |-> f.kind, group |-> f.group, size |-> f.size, loc |-> loc]
ReadOk(P, infos, locs, rd) ==
  /\ rd.count = Len(infos)
  /\ { rd.infos[k] : k \in 1..Len(rd.infos) } = { Shown(P, infos[i], locs[i]) : i \in 1..Len(infos) }
  /\ Len(rd.infos) = Len(infos)
  /\ rd.check = "ok"

\* packs which cannot be found any more: not in the file of the manifest, and no file with the recorded name has it
Missing(e, infos, locs, files) ==
  { i \in 1..Len(infos) : ~IsIn(infos[i].uuid, e.inside) /\ ~IsIn(<< locs[i], infos[i].uuid >>, files) }

RECURSIVE Steps(_, _, _, _, _, _, _)
Steps(e, P, infos, locs, changed, n, used) ==
  IF n > Len(e.steps) THEN TRUE
  ELSE
    LET s == e.steps[n]
        hit == { i \in 1..Len(infos) : infos[i].uuid = s.uuid }
        i == IF hit = {} THEN 0 ELSE CHOOSE x \in hit : TRUE
        locs2 == TLCEval(IF i = 0 THEN locs ELSE [locs EXCEPT ![i] = s.loc])
        ch2 == TLCEval(IF i = 0 THEN changed ELSE [changed EXCEPT ![i] = TRUE])
        at == P.base + InfoPos(P, i - 1)
        miss == TLCEval(Missing(e, infos, locs2, s.files))
        missids == { infos[k].id : k \in { x \in miss : infos[x].kind = 99 } }
        c2 == [packids |-> e.c.packids, adds |-> e.c.adds, dedup |-> e.c.dedup,
               missing |-> SelectSeq(e.c.packids, LAMBDA p : p \in missids)]
        stored == TLCEval(Stored(c2))
    IN /\ Clause("result", s.res = IF i = 0 THEN << "none" >> ELSE << "ok", infos[i].kind, locs[i] >>)
       /\ Clause("size", s.samesize)
       /\ IF i = 0 THEN Clause("unknown changes nothing", s.diffs = <<>>)
          ELSE /\ Clause("only that block", \A j \in 1..Len(s.diffs) : s.diffs[j][1] >= at /\ s.diffs[j][1] + Len(s.diffs[j][2]) <= at + 256)
               /\ Clause("block", Patched(P, i - 1, OldBlock(P, i - 1, locs[i], changed[i]), s.diffs) = Block(P, i - 1, s.loc))
       /\ Clause("global check", s.sum = Digest(P))
       /\ Clause("reading", ReadOk(P, infos, locs2, s.read))
       \* the container, when its directory can be found
       /\ (\E k \in miss : infos[k].kind = 100) \/
          /\ Clause("opened", s.answers.opened)
          /\ \A k \in 1..Len(s.answers.reads) : Clause("content", AnswerOk(c2, stored, used, s.answers.reads[k][1], s.answers.reads[k][2]))
          /\ Clause("check", s.answers.check = "ok")
          /\ Clause("rows", RowsReadOk(e.dir, e.handles, e.addrs, s.answers.idx, e.fulls))
          /\ Clause("indexes", IndexesReadOk(e.dir, e.handles, s.answers.idx, e.fulls))
       /\ Steps(e, P, infos, locs2, ch2, n + 1, used)

Judge(e) ==
  LET P == e.man
      infos == Infos(P)
      used == TLCEval(Used(e.c))
  IN /\ Clause("manifest", KindOf(P) = "m" /\ \A i \in 1..Len(infos) : infos[i].ok)
     /\ Steps(e, P, infos, [i \in 1..Len(infos) |-> infos[i].loc], [i \in 1..Len(infos) |-> FALSE], 1, used)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
