----------------------------- MODULE FormatCase -----------------------------
(***************************************************************************)
(* Conformance of written files: every event is one container written by   *)
(* the real creator - the bytes of its files - together with what was      *)
(* asked for.  The bytes are decoded by JbkFormat, which shares nothing    *)
(* with the library, and must give exactly what was asked for.             *)
(*                                                                         *)
(* event: files  - sequence of [name, size, segs, packs].  `packs` are     *)
(*                 hints: positions of the packs and, at these positions,  *)
(*                 the primitives which TLC cannot compute (blake3 and     *)
(*                 decompression).  A hint whose positions are not those   *)
(*                 which the bytes give is refused.                        *)
(*        dir, handles, adds, nameb (name -> bytes), vendor, algs          *)
(*        (pack id -> compression byte), dedup                             *)
(***************************************************************************)
EXTENDS JbkFormat, Directory, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE l

\* names the clause which fails
Clause(n, b) == IF b THEN TRUE ELSE PrintT("CLAUSE " \o n) /\ FALSE

FilePack(f) == [base |-> 0, len |-> f.size, segs |-> f.segs]

\* all the packs of a file, with their hint
HintFor(f, P) == LET c == { i \in 1..Len(f.packs) : f.packs[i].pos = P.base /\ f.packs[i].size = P.len }
                 IN IF c = {} THEN [b3 |-> [n |-> -1, mask |-> <<>>, digest |-> <<>>], clusters |-> <<>>]
                    ELSE f.packs[CHOOSE i \in c : TRUE]
PacksOf(f, i) ==
  LET P == FilePack(f)
      mk(Q) == [p |-> Q, h |-> HintFor(f, Q), kind |-> KindOf(Q), file |-> i, uuid |-> Uuid(Q)]
  IN IF KindOf(P) = "C" THEN << mk(P) >> \o [k \in 1..Max(0, ContainerCount(P)) |-> mk(SubPack(P, k))] ELSE << mk(P) >>
RECURSIVE AllPacks(_, _)
AllPacks(fs, i) == IF i > Len(fs) THEN <<>> ELSE PacksOf(fs[i], i) \o AllPacks(fs, i + 1)

\* ------------------------------------------------------------ every pack
BlakeOk(x) == /\ x.h.b3.n = CheckPos(x.p)
              /\ x.h.b3.mask = (IF x.kind = "m" THEN Masked(x.p) ELSE <<>>)
              /\ x.h.b3.digest = Digest(x.p)
PackOk(e, x) ==
  /\ Clause("header", HeaderOk(x.p)) /\ Clause("tail", TailOk(x.p)) /\ Clause("checkinfo", CheckOk(x.p))
  /\ Clause("vendor", x.kind = "C" \/ Vendor(x.p) = e.vendor)
  /\ IF x.kind = "C" THEN CheckKind(x.p) = 0 /\ Clause("container", ContainerOk(x.p))
     ELSE CheckKind(x.p) = 1 /\ Clause("blake3", BlakeOk(x))

\* ------------------------------------------------------------ manifest
ManifestOk(e, ps, x) ==
  LET P == x.p
      infos == Infos(P)
      vso == [t |-> SOOff(P, 66), n |-> SOSize(P, 66)]
  IN /\ Cut(P, 74, 26) = Zeros(26)
     /\ VStoreOk(P, VStore(P, vso.t, vso.n))
     /\ \A i \in 1..Len(infos) :
          LET f == infos[i] IN
          /\ f.ok
          /\ \E k \in 1..Len(ps) :
               /\ ps[k].uuid = f.uuid /\ ps[k].p.len = f.size /\ ps[k].kind \in {"c", "d"}
               /\ f.kind = Magic[ps[k].kind][4]
               \* the manifest has a copy of the check information of the pack (the size counts the CRC)
               /\ f.cksize = CheckLen(ps[k].p) + 4
               /\ BlockOk(P, f.ckpos, f.cksize - 4)
               /\ Cut(P, f.ckpos, f.cksize - 4) = Cut(ps[k].p, CheckPos(ps[k].p), CheckLen(ps[k].p))
               \* where it is
               /\ IF f.loc = <<>> THEN ps[k].file = x.file ELSE e.files[ps[k].file].name = f.loc
     /\ \A i, j \in 1..Len(infos) : i # j => infos[i].id # infos[j].id /\ infos[i].uuid # infos[j].uuid
     /\ { infos[i].uuid : i \in 1..Len(infos) } = { ps[k].uuid : k \in { y \in 1..Len(ps) : ps[y].kind \in {"c", "d"} } }
     /\ { infos[i].id : i \in { y \in 1..Len(infos) : infos[y].kind = 99 } } = { e.algs[i][1] : i \in 1..Len(e.algs) }

\* ------------------------------------------------------------ contents
HintOk(c, h) == c.count >= 0 /\ c.raw >= 0 /\ h.start = c.start /\ h.n = c.raw /\ h.alg = c.comp /\ h.len = c.data
                /\ Len(h.cuts) = c.count + 1 /\ (c.count > 0 => \A k \in 1..(c.count + 1) : h.cuts[k] = c.offs[k - 1])
ContentsOk(e, x, id) ==
  LET P == x.p
      cl == Clusters(P)
      adds == SelectSeq(e.adds, LAMBDA a : a.pack = id)
      ids == TLCEval({ LEVal(adds[i].addr[2]) : i \in 1..Len(adds) })
  IN /\ ContentPackOk(P, cl)
     /\ Len(x.h.clusters) = Len(cl)
     /\ \A i \in 1..Len(cl) : HintOk(cl[i], x.h.clusters[i])
     /\ ids = 0..(ContentCount(P) - 1)
     /\ \A i \in 1..Len(adds) :
          LET ci == ContentInfo(P, LEVal(adds[i].addr[2]))
          IN Clause("content", adds[i].addr[1] = id) /\ x.h.clusters[ci.cluster + 1].parts[ci.blob + 1] = adds[i].obs

InfoOfPack(m, u) == LET s == Infos(m.p) IN s[CHOOSE i \in 1..Len(s) : s[i].uuid = u]

\* ------------------------------------------------------------ directory
EntryOk(e, got, exp) ==
  /\ got.v = exp.v
  /\ exp.v >= 0 => got.vname = e.nameb[exp.vn]
  /\ Len(got.vals) = Cardinality(DOMAIN exp.vals)
  /\ \A k \in DOMAIN exp.vals : \E i \in 1..Len(got.vals) : got.vals[i] = << e.nameb[k], exp.vals[k] >>
DirectoryOk(e, P) ==
  LET vs == VStores(P)
      es == EStores(P)
      ix == Indexes(P)
      d == e.dir
  IN /\ Clause("tables", DirOk(P, vs, es, ix))
     /\ Len(es) = Len(d.stores) /\ Len(ix) = Len(d.idx)
     /\ \A s \in 1..Len(es) :
          LET st == d.stores[s] IN
          /\ es[s].count = Len(st.rows)
          /\ Len(es[s].variants) = Len(st.variants)
          /\ \A r \in 1..Len(st.rows) :
               Clause("entry", EntryOk(e, EntryAt(P, vs, es[s], e.handles[s][r]), ExpRow(st, st.rows[r], e.handles, e.addrs)))
     /\ \A i \in 1..Len(d.idx) :
          LET w == d.idx[i] IN
          \E j \in 1..Len(ix) :
             /\ ix[j].name = e.nameb[w.name] /\ ix[j].store = w.store /\ ix[j].count = w.count
             /\ ix[j].off = (IF w.off[1] = "ref" THEN e.handles[w.off[2] + 1][w.off[3] + 1] ELSE w.off[2])
             /\ ix[j].key = w.key

\* ------------------------------------------------------------ C14
Ones(ps, k) == SelectSeq(ps, LAMBDA x : x.kind = k)
J14(e) ==
  LET ps == TLCEval(AllPacks(e.files, 1))
      ms == Ones(ps, "m")
      ds == Ones(ps, "d")
      cs == Ones(ps, "c")
  IN /\ e.built
     /\ \A i \in 1..Len(ps) : PackOk(e, ps[i])
     /\ Len(ms) = 1 /\ Len(ds) = 1
     /\ Clause("manifest", ManifestOk(e, ps, ms[1]))
     /\ \A i \in 1..Len(cs) : Clause("contents", ContentsOk(e, cs[i], InfoOfPack(ms[1], cs[i].uuid).id))
     /\ Clause("directory", DirectoryOk(e, ds[1].p))

\* ------------------------------------------------------------ C16
AlgOf(e, id) == e.algs[CHOOSE i \in 1..Len(e.algs) : e.algs[i][1] = id][2]
Allowed(h, alg, comp) == IF alg = 0 THEN comp = 0
                         ELSE CASE h = "n" -> comp = 0 [] h = "y" -> comp = alg [] OTHER -> comp \in {0, alg}
AllHints == {"y", "n", "d"}
\* x: a content pack of identifier id
PlacementOk(e, x, id) ==
  LET P == x.p
      cl == Clusters(P)
      hc == x.h.clusters
      good == TLCEval({ i \in 1..Len(cl) : i <= Len(hc) /\ HintOk(cl[i], hc[i]) })
      comps == TLCEval([i \in 1..Len(cl) |-> cl[i].comp])
      mine == SelectSeq(e.adds, LAMBDA a : a.pack = id)
      alg == AlgOf(e, id)
      \* with a deduplicating adder the hint of any of the identical contents may have been the one followed
      given == TLCEval({ << mine[i].addr, mine[i].hint >> : i \in 1..Len(mine) })
      addrs == { mine[i].addr : i \in 1..Len(mine) }
      obss == { mine[i].obs : i \in 1..Len(mine) }
      both == { << mine[i].addr, mine[i].obs >> : i \in 1..Len(mine) }
  IN /\ \A i \in 1..Len(mine) :
          LET ci == ContentInfo(P, LEVal(mine[i].addr[2]))
              k == ci.cluster + 1
          IN /\ Clause("cluster", k \in good)
             /\ Clause("bytes", hc[k].parts[ci.blob + 1] = mine[i].obs)
             /\ Clause("hint", \E h \in AllHints : << mine[i].addr, h >> \in given /\ Allowed(h, alg, comps[k]))
     /\ e.dedup /\ id = 1 => Clause("stored once", /\ Cardinality(both) = Cardinality(addrs)
                                                    /\ Cardinality(both) = Cardinality(obss)
                                                    /\ ContentCount(P) = Cardinality(obss))
J16(e) ==
  LET ps == TLCEval(AllPacks(e.files, 1))
      ms == Ones(ps, "m")
      cs == Ones(ps, "c")
  IN /\ Clause("built", e.built)
     /\ Len(ms) = 1
     /\ \A i \in 1..Len(e.adds) : \E k \in 1..Len(e.algs) : e.algs[k][1] = e.adds[i].pack
     /\ Len(cs) = Len(e.algs)
     /\ \A i \in 1..Len(cs) : PlacementOk(e, cs[i], InfoOfPack(ms[1], cs[i].uuid).id)

Judge(e) == IF Prop = "C14" THEN J14(e) ELSE J16(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
