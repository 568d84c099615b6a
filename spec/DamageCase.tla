----------------------------- MODULE DamageCase -----------------------------
(***************************************************************************)
(* Conformance of the reader on altered files.  An event is one container  *)
(* written by the real creator (the pristine bytes of its files) and what  *)
(* the real reader gave for many alterations of these bytes.  Which bytes  *)
(* a checksum covers, which bytes are the data of which content, and so    *)
(* what may differ, is derived here from the pristine bytes.               *)
(*                                                                         *)
(* event: files  - sequence of [name, size, segs, base]                    *)
(*        entry  - the file which is opened (index in files)               *)
(*        packs  - sequence of [file, pos, size, uuid, kind]: the packs    *)
(*                 which are checked one by one (refused if not the packs  *)
(*                 which the bytes give)                                   *)
(*        addrs  - the contents which are read                             *)
(*        base   - the checks of the pristine files [all, files, packs]    *)
(*        bad    - number of alterations where reading crashed             *)
(*        groups - sequence of [r, alts]: all the alterations of `alts`    *)
(*                 gave the result r = [all, files, packs: "ok"|"bad"|"E", *)
(*                 diff: structure which differs without an error,         *)
(*                 cdiff: contents (from 0) which differ]                  *)
(*        an alteration: sequence of changed runs << file, pos, n >>       *)
(***************************************************************************)
EXTENDS JbkFormat, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE l
Clause(n, b) == IF b THEN TRUE ELSE PrintT("CLAUSE " \o n) /\ FALSE

FilePack(f) == [base |-> f.base, len |-> f.size - f.base, segs |-> f.segs]
PackOf(e, k) == [base |-> e.packs[k].pos, len |-> e.packs[k].size, segs |-> e.files[e.packs[k].file].segs]

\* the packs which the bytes give: << file, pos, size >>
PacksIn(e) == UNION { LET P == FilePack(e.files[i]) IN
                        IF KindOf(P) = "C" THEN { LET Q == SubPack(P, k) IN << i, Q.base, Q.len >> : k \in 1..ContainerCount(P) }
                        ELSE { << i, P.base, P.len >> } : i \in 1..Len(e.files) }

\* the bytes which the checksum of pack k protects, and its check block: sequence of << file, from, to >>
Span(f, P, a, b) == << f, P.base + a, P.base + b >>
Protected(e, k) ==
  LET P == PackOf(e, k)
      f == e.packs[k].file
      m == IF KindOf(P) = "m" THEN Masked(P) ELSE <<>>
      n == Len(m)
      part(i) == Span(f, P, IF i = 1 THEN 0 ELSE m[i - 1][2], IF i > n THEN CheckPos(P) ELSE m[i][1])
  IN TLCEval([i \in 1..(n + 1) |-> part(i)] \o << Span(f, P, CheckPos(P), CheckPos(P) + CheckLen(P) + 4) >>)

\* the bytes which hold the data of the content at address a
Index4(b) == IF b[4] > 63 THEN -1 ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
DataOf(e, a) ==
  LET mk == CHOOSE k \in 1..Len(e.packs) : KindOf(PackOf(e, k)) = "m"
      infos == Infos(PackOf(e, mk))
      u == infos[CHOOSE i \in 1..Len(infos) : infos[i].kind = 99 /\ infos[i].id = a[1]].uuid
      k == CHOOSE j \in 1..Len(e.packs) : Uuid(PackOf(e, j)) = u
      P == PackOf(e, k)
      ci == ContentInfo(P, Index4(a[2]))
      c == ClusterAt(P, ci.cluster)
  IN IF c.comp = 0 THEN Span(e.packs[k].file, P, c.start + c.offs[ci.blob], c.start + c.offs[ci.blob + 1])
     ELSE Span(e.packs[k].file, P, c.start, c.tail)

Touches(run, r) == run[1] = r[1] /\ run[2] < r[3] /\ run[2] + run[3] > r[2]
AltTouches(alt, r) == \E i \in 1..Len(alt) : Touches(alt[i], r)

\* C04: the pristine container verifies; a protected byte which changes is seen by the check of its pack, of the files
\* which contain the pack, and of the container
C04Base(e) ==
  /\ Clause("pristine-check", e.base.all = "ok")
  /\ Clause("pristine-pack-check", \A k \in 1..Len(e.packs) : e.base.packs[k] = "ok")
  /\ Clause("pristine-file-check", \A i \in 1..Len(e.files) : e.base.files[i] = "ok")
C04Alt(e, prot, r, alt) ==
  \A k \in 1..Len(e.packs) :
    (\E i \in 1..Len(prot[k]) : AltTouches(alt, prot[k][i]))
      => \* (a pack of another file whose uuid is rewritten, its CRC too, is another pack: for the container it is missing)
         /\ Clause("container-check", r.all # "ok" \/ (e.packs[k].file # e.entry /\ AltTouches(alt, Span(e.packs[k].file, PackOf(e, k), 10, 26))))
         /\ Clause("pack-check", r.packs[k] # "ok")
         \* (a file behind a prefix has no check of its own)
         /\ Clause("file-check", r.files[e.packs[k].file] # "ok" \/ e.files[e.packs[k].file].base > 0)

\* C05: the structure is the same (or an error); only the data of a content whose bytes changed may differ, and then the
\* container does not verify
C05Alt(e, data, r, alt) ==
  /\ Clause("structure", r.diff = <<>>)
  /\ \A i \in 1..Len(r.cdiff) :
       /\ Clause("content", AltTouches(alt, data[r.cdiff[i] + 1]))
       /\ Clause("content-check", r.all # "ok")

\* C06: whatever the bytes, opening, reading and checking end with values or errors
C06Alt(e, r) ==
  /\ Clause("ends", r.all \in {"ok", "bad", "E"})
  /\ Clause("ends-files", \A i \in 1..Len(r.files) : r.files[i] \in {"ok", "bad", "E"})
  /\ Clause("ends-packs", \A k \in 1..Len(r.packs) : r.packs[k] \in {"ok", "bad", "E", "none"})

Judge(e) ==
  /\ Clause("packs", { << e.packs[k].file, e.packs[k].pos, e.packs[k].size >> : k \in 1..Len(e.packs) } = PacksIn(e))
  /\ IF Prop = "C04"
     THEN LET prot == TLCEval([k \in 1..Len(e.packs) |-> Protected(e, k)])
          IN /\ C04Base(e)
             /\ \A g \in 1..Len(e.groups) : LET G == e.groups[g] IN
                  (G.r.all = "ok" \/ (\E k \in 1..Len(e.packs) : G.r.packs[k] = "ok") \/ (\E k \in 1..Len(e.files) : G.r.files[k] = "ok"))
                    => \A x \in 1..Len(G.alts) : C04Alt(e, prot, G.r, G.alts[x])
     ELSE IF Prop = "C06"
     THEN Clause("crashes", e.bad = 0) /\ \A g \in 1..Len(e.groups) : C06Alt(e, e.groups[g].r)
     ELSE LET data == TLCEval([i \in 1..Len(e.addrs) |-> DataOf(e, e.addrs[i])])
          IN \A g \in 1..Len(e.groups) : LET G == e.groups[g] IN
               (G.r.diff # <<>> \/ G.r.cdiff # <<>>) => \A x \in 1..Len(G.alts) : C05Alt(e, data, G.r, G.alts[x])

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN IF Judge(e) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
