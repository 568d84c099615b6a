------------------------------ MODULE DirCase ------------------------------
(***************************************************************************)
(* Conformance: every event is one directory built by the real creator and *)
(* read back by the real reader.  One step of this specification consumes  *)
(* one event; an event which is not a behaviour of Directory is reported.  *)
(*                                                                         *)
(* event: dir     - the directory asked for (see Directory)                *)
(*        must    - TRUE when the creation has to succeed                  *)
(*        built   - whether it succeeded                                   *)
(*        addrs   - addresses of the contents ("lc" values)                *)
(*        handles - per store, per row, the position reported (0 based)    *)
(*        fulls   - per store, name of the index covering the whole store  *)
(*        idx     - index name -> what the reader shows                    *)
(*        typed   - index name -> the same through the typed accessors     *)
(*        finds   - sequence of [idx, q] with q a sequence of              *)
(*                  [k, vals, lin, bin, def]                               *)
(***************************************************************************)
EXTENDS Directory, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLE l

HasRefs(st) == \E r \in 1..Len(st.rows) : \E k \in DOMAIN st.rows[r].vals : st.rows[r].vals[k][1] \in {"ref", "wref", "sref"}

\* ---------------------------------------------------------------- C02
Full(e, s) == e.idx[e.fulls[s]]
Readable(ix, n) == /\ ix.err = "" /\ ix.count = n /\ Len(ix.entries) = n
                   /\ \A i \in 1..n : ix.entries[i].v # -9

SameBag(xs, ys) ==
  /\ Len(xs) = Len(ys)
  /\ \A i \in 1..Len(xs) : Cardinality({ j \in 1..Len(xs) : SameRow(xs[j], xs[i]) })
                         = Cardinality({ j \in 1..Len(ys) : SameRow(ys[j], xs[i]) })

RowsOk(e, s) ==
  LET st == e.dir.stores[s]
      f == Full(e, s)
      pos == e.handles
      exp == [r \in 1..Len(st.rows) |-> ExpRow(st, st.rows[r], pos, e.addrs)]
  IN /\ Readable(f, Len(st.rows))
     /\ IF st.sort = <<>>
        THEN \A r \in 1..Len(st.rows) : SameRow(f.entries[r], exp[r])
        ELSE SameBag(f.entries, exp)

WindowOk(e, i) ==
  LET d == e.dir.idx[i]
      ix == e.idx[d.name]
      f == Full(e, d.store + 1)
      off == IF d.off[1] = "ref" THEN e.handles[d.off[2] + 1][d.off[3] + 1] ELSE d.off[2]
  IN /\ Readable(ix, d.count)
     /\ ix.off = off
     /\ ix.entries = Window(f.entries, off, d.count)
     /\ ix.past = << "none" >> /\ ix.past2 = << "none" >>

TypedOk(e) == \A n \in DOMAIN e.typed : e.typed[n] = e.idx[n].entries

J02(e) ==
  /\ e.must => e.built
  /\ e.built => /\ e.dumped
                /\ \A s \in 1..Len(e.dir.stores) : RowsOk(e, s)
                /\ \A i \in 1..Len(e.dir.idx) : WindowOk(e, i)
                /\ TypedOk(e)

\* ---------------------------------------------------------------- C03
OrderOk(e, s) ==
  LET st == e.dir.stores[s]
      f == Full(e, s)
  IN /\ Readable(f, Len(st.rows))
     /\ st.sort # <<>> => InOrder(st, f.entries)

FindsOk(e) ==
  \A i \in 1..Len(e.finds) :
     LET win == e.idx[e.finds[i].idx].entries IN
     \A j \in 1..Len(e.finds[i].q) :
        LET q == e.finds[i].q[j] IN
        /\ FindOk(win, q.k, q.vals, q.lin)
        /\ q.def # -9 => FindOk(win, q.k, q.vals, q.def)
        /\ q.bin # -9 => FindOk(win, q.k, q.vals, q.bin)

\* the keys which are in the store are exactly the ones written (so that "found" means "written")
KeysOk(e, s) ==
  LET st == e.dir.stores[s]
      f == Full(e, s)
      keys == st.sort
      want(r) == [k \in { keys[i] : i \in 1..Len(keys) } |-> Resolve(st.rows[r].vals[k], e.handles, e.addrs)]
      \* the same multiset of keys: compare the stored keys with the expected ones
      cnt(v) == Cardinality({ i \in 1..Len(f.entries) : KeyCmp(keys, f.entries[i].vals, v) = 0 })
      exp(v) == Cardinality({ r \in 1..Len(st.rows) : KeyCmp(keys, want(r), v) = 0 })
  IN \A r \in 1..Len(st.rows) : cnt(want(r)) = exp(want(r))

J03(e) ==
  /\ e.must => e.built
  /\ e.built => /\ e.dumped
                /\ \A s \in 1..Len(e.dir.stores) : OrderOk(e, s) /\ KeysOk(e, s)
                /\ FindsOk(e)

\* ---------------------------------------------------------------- C15
RefsOk(e, s) ==
  LET st == e.dir.stores[s]
      f == Full(e, s)
      h == e.handles[s]
  IN /\ IsPerm(h, Len(st.rows))
     /\ Readable(f, Len(st.rows))
     /\ \A r \in 1..Len(st.rows) : SameRow(f.entries[h[r] + 1], ExpRow(st, st.rows[r], e.handles, e.addrs))
     /\ st.sort # <<>> => InOrder(st, f.entries)
     /\ st.sort = <<>> => \A r \in 1..Len(st.rows) : h[r] = r - 1

J15(e) ==
  /\ e.must => e.built
  /\ e.built => /\ e.dumped
                /\ Len(e.handles) = Len(e.dir.stores)
                /\ \A s \in 1..Len(e.dir.stores) : RefsOk(e, s)
                /\ \A i \in 1..Len(e.dir.idx) : e.dir.idx[i].off[1] = "ref" => WindowOk(e, i)

Judge(e) == CASE Prop = "C02" -> J02(e) [] Prop = "C03" -> J03(e) [] OTHER -> J15(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
