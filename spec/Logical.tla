------------------------------- MODULE Logical -------------------------------
(***************************************************************************)
(* The logical container: what a reader has to answer, independently of    *)
(* how packs are written, scheduled or packaged.                           *)
(*                                                                         *)
(* c.packids : the content packs of the container                          *)
(* c.adds    : the insertions, [obs, pack, addr] (addr = <<pack, 4 bytes>>)*)
(* c.missing : the packs which cannot be reached                           *)
(***************************************************************************)
EXTENDS Directory

IsIn(x, s) == \E i \in 1..Len(s) : s[i] = x

\* what has been stored: << address, content >> pairs, and the addresses in use
Stored(c) == { << c.adds[i].addr, c.adds[i].obs >> : i \in 1..Len(c.adds) }
Used(c) == { c.adds[i].addr : i \in 1..Len(c.adds) }
\* number of contents of a pack: one per address
Count(used, p) == Cardinality({ a \in used : a[1] = p })

\* An address belongs to the pack of the insertion, and to one content; two insertions share an address only when they
\* are identical, with the deduplicating adder
AddressesOk(c, stored, used) ==
  /\ \A i \in 1..Len(c.adds) : c.adds[i].addr[1] = c.adds[i].pack
  /\ Cardinality(stored) = Cardinality(used)
  /\ ~c.dedup => Cardinality(used) = Len(c.adds)

\* answer to a content lookup: "missing" answers are compared on their kind (see Packaging)
AnswerOk(c, stored, used, addr, got) ==
  IF ~IsIn(addr[1], c.packids) THEN got = << "nopack" >>
  ELSE IF IsIn(addr[1], c.missing) THEN got[1] = "missing"
  ELSE IF addr \in used THEN got[1] = "ok" /\ << addr, got[2] >> \in stored
  ELSE got = << "nocontent" >>

PackAnswerOk(c, used, p, got) ==
  IF ~IsIn(p, c.packids) THEN got = << "nopack" >>
  ELSE IF IsIn(p, c.missing) THEN got[1] = "missing"
  ELSE got = << "ok", Count(used, p) >>

RowsReadOk(d, handles, addrs, idx, fulls) ==
  \A s \in 1..Len(d.stores) :
     LET f == idx[fulls[s]] IN
     /\ f.err = "" /\ Len(f.entries) = Len(d.stores[s].rows)
     /\ \A r \in 1..Len(d.stores[s].rows) :
          SameRow(f.entries[handles[s][r] + 1], ExpRow(d.stores[s], d.stores[s].rows[r], handles, addrs))
IndexesReadOk(d, handles, idx, fulls) ==
  \A i \in 1..Len(d.idx) :
     LET w == d.idx[i]
         ix == idx[w.name]
         off == IF w.off[1] = "ref" THEN handles[w.off[2] + 1][w.off[3] + 1] ELSE w.off[2]
     IN ix.err = "" /\ ix.count = w.count /\ ix.off = off
        /\ ix.entries = Window(idx[fulls[w.store + 1]].entries, off, w.count)
=============================================================================
