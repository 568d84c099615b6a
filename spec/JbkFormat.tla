----------------------------- MODULE JbkFormat -----------------------------
(***************************************************************************)
(* The on-disk layout, as a decoder over raw bytes.  It shares nothing     *)
(* with the library: it is written from the documents in /repo/spec.       *)
(* A pack P is a window [base, len] on the bytes of a file (positions in    *)
(* the format are 0 based).  Reading out of the pack yields zeros and numbers which are too *)
(* big yield -1, so that every operator is total; the ...Ok operators say  *)
(* whether the bytes follow the layout.                                    *)
(***************************************************************************)
EXTENDS Bytes, Bitwise, SequencesExt, Folds, TLC

\* ------------------------------------------------------------ primitives
\* P.segs: the bytes of the file, << position, bytes >> each; what is in no segment (data of big clusters) reads as zeros
SegOf(P, x) == LET c == { i \in 1..Len(P.segs) : P.segs[i][1] <= x /\ x < P.segs[i][1] + Len(P.segs[i][2]) }
               IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
At(P, x) == LET s == SegOf(P, x) IN IF s = 0 THEN 0 ELSE P.segs[s][2][x - P.segs[s][1] + 1]
In(P, p, n) == p >= 0 /\ n >= 0 /\ p + n <= P.len
B(P, p) == IF p >= 0 /\ p < P.len THEN At(P, P.base + p) ELSE 0
Cut(P, p, n) ==
  IF n <= 0 THEN <<>>
  ELSE IF ~In(P, p, n) THEN [i \in 1..n |-> 0]
  ELSE LET x == P.base + p
           s == SegOf(P, x)
       IN IF s # 0 /\ x + n <= P.segs[s][1] + Len(P.segs[s][2])
          THEN SubSeq(P.segs[s][2], x - P.segs[s][1] + 1, x - P.segs[s][1] + n)
          ELSE [i \in 1..n |-> At(P, x + i - 1)]
\* a pack inside of a file (or of a container)
View(P, p, n) == [base |-> P.base + p, len |-> n, segs |-> P.segs]

\* little-endian natural of n bytes, -1 when it is not below 2^30
Num(P, p, n) ==
  LET top == IF n > 3 THEN B(P, p + 3) ELSE 0
      high == { i \in 4..(n - 1) : B(P, p + i) # 0 }
  IN IF top >= 64 \/ high # {} THEN -1
     ELSE B(P, p) + (IF n > 1 THEN 256 * B(P, p + 1) ELSE 0) + (IF n > 2 THEN 65536 * B(P, p + 2) ELSE 0)
          + 16777216 * top

\* SizedOffset: u64, the size in the low 16 bits and the offset in the 48 others
SOSize(P, p) == Num(P, p, 2)
SOOff(P, p) == Num(P, p + 2, 6)

\* ------------------------------------------------------------ CRC-32C, not reflected, no final xor, big endian
PolyHi == 7900      \* 0x1EDC
PolyLo == 28481     \* 0x6F41
Shift1(c) == LET hi == c[1]
                 lo == c[2]
                 h2 == (hi % 32768) * 2 + lo \div 32768
                 l2 == (lo % 32768) * 2
             IN IF hi >= 32768 THEN << h2 ^^ PolyHi, l2 ^^ PolyLo >> ELSE << h2, l2 >>
RECURSIVE ShiftN(_, _)
ShiftN(c, n) == IF n = 0 THEN c ELSE ShiftN(Shift1(c), n - 1)
CrcTable == TLCEval([i \in 0..255 |-> ShiftN(<< i * 256, 0 >>, 8)])
CrcStep(b, c) == LET t == CrcTable[(c[1] \div 256) ^^ b]
                 IN << ((c[1] % 256) * 256 + c[2] \div 256) ^^ t[1], ((c[2] % 256) * 256) ^^ t[2] >>
Crc(s) == FoldLeft(LAMBDA c, b : CrcStep(b, c), << 65535, 65535 >>, s)
CrcBytes(s) == LET c == Crc(s) IN << c[1] \div 256, c[1] % 256, c[2] \div 256, c[2] % 256 >>

\* a block: n bytes followed by their CRC
BlockOk(P, p, n) == In(P, p, n + 4) /\ CrcBytes(Cut(P, p, n)) = Cut(P, p + n, 4)

\* ------------------------------------------------------------ pack header, tail, check information
Magic == [m |-> << 106, 98, 107, 109 >>, d |-> << 106, 98, 107, 100 >>, c |-> << 106, 98, 107, 99 >>, C |-> << 106, 98, 107, 67 >>]
KindOf(P) == CHOOSE k \in {"m", "d", "c", "C", "?"} :
               IF k = "?" THEN Cut(P, 0, 4) \notin { Magic[x] : x \in DOMAIN Magic } ELSE Cut(P, 0, 4) = Magic[k]
PackSize(P) == Num(P, 32, 8)
CheckPos(P) == Num(P, 40, 8)
Uuid(P) == Cut(P, 10, 16)
Vendor(P) == Cut(P, 4, 4)
Zeros(n) == [i \in 1..n |-> 0]
HeaderOk(P) ==
  /\ P.len >= 128
  /\ KindOf(P) # "?"
  /\ B(P, 8) = 0 /\ B(P, 9) = 2
  /\ B(P, 26) = 0 /\ Cut(P, 27, 5) = Zeros(5) /\ Cut(P, 48, 12) = Zeros(12)
  /\ BlockOk(P, 0, 60)
  /\ PackSize(P) = P.len
  /\ CheckPos(P) >= 128 /\ CheckPos(P) < P.len
  /\ BlockOk(P, 64, 60)
\* the tail is the header, mirrored
TailOk(P) == \A i \in 0..63 : B(P, P.len - 1 - i) = B(P, i)
CheckKind(P) == B(P, CheckPos(P))
CheckLen(P) == IF CheckKind(P) = 1 THEN 33 ELSE 1
CheckOk(P) == /\ CheckKind(P) \in {0, 1}
              /\ BlockOk(P, CheckPos(P), CheckLen(P))
              /\ CheckPos(P) + CheckLen(P) + 4 + 64 = P.len
Digest(P) == Cut(P, CheckPos(P) + 1, 32)
FreeData(P) == Cut(P, 100, 24)

\* ------------------------------------------------------------ container pack
ContainerCount(P) == Num(P, 72, 2)
ContainerPtr(P) == Num(P, 64, 8)
Locator(P, i) ==      \* i from 0
  LET p == ContainerPtr(P) + 36 * i
  IN [pos |-> Num(P, p + 24, 8), size |-> Num(P, p + 16, 8), uuid |-> Cut(P, p, 16), ok |-> BlockOk(P, p, 32)]
Locators(P) == TLCEval([i \in 1..ContainerCount(P) |-> Locator(P, i - 1)])
ContainerOk(P) ==
  /\ Cut(P, 74, 26) = Zeros(26)
  /\ ContainerCount(P) >= 0
  /\ \A i \in 1..ContainerCount(P) : LET l == Locators(P)[i] IN l.ok /\ In(P, l.pos, l.size) /\ l.pos >= 128
  \* packs do not overlap and are before the locators
  /\ \A i, j \in 1..ContainerCount(P) : i # j =>
        LET a == Locators(P)[i]
            b == Locators(P)[j]
        IN a.pos + a.size <= b.pos \/ b.pos + b.size <= a.pos
  /\ \A i \in 1..ContainerCount(P) : LET l == Locators(P)[i] IN
        l.pos + l.size <= ContainerPtr(P) \/ l.pos >= ContainerPtr(P) + 36 * ContainerCount(P)
  /\ CheckKind(P) = 0
SubPack(P, i) == LET l == Locator(P, i - 1) IN View(P, l.pos, l.size)

\* ------------------------------------------------------------ content pack
ContentPtr(P) == Num(P, 64, 8)
ClusterPtr(P) == Num(P, 72, 8)
ContentCount(P) == Num(P, 80, 4)
ClusterCount(P) == Num(P, 84, 4)
\* content i (from 0): 20 bits of cluster, 12 bits of blob
ContentInfo(P, i) == LET p == ContentPtr(P) + 4 * i
                     IN [blob |-> B(P, p) + 256 * (B(P, p + 1) % 16),
                         cluster |-> (B(P, p + 1) \div 16) + 16 * B(P, p + 2) + 4096 * B(P, p + 3)]
ClusterAt(P, i) ==
  LET e == ClusterPtr(P) + 8 * i
      t == SOOff(P, e)
      w == B(P, t + 1)
      n == Num(P, t + 2, 2)
      raw == Num(P, t + 4, w)
      data == Num(P, t + 4 + w, w)
  IN [ tail |-> t, tsize |-> SOSize(P, e), comp |-> B(P, t), w |-> w, count |-> n, raw |-> raw, data |-> data,
       start |-> t - raw,
       \* limits of the blobs in the uncompressed data
       offs |-> [k \in 0..Max(n, 0) |-> IF k = 0 THEN 0 ELSE IF k >= n THEN data ELSE Num(P, t + 4 + w * (k + 1), w)] ]
Clusters(P) == TLCEval([i \in 1..ClusterCount(P) |-> ClusterAt(P, i - 1)])
ClusterOk(P, c) ==
  /\ c.comp \in 0..3 /\ c.w \in 1..8
  /\ c.count \in 0..4096 /\ c.raw >= 0 /\ c.data >= 0
  /\ c.tsize = 4 + c.w * (2 + Max(0, c.count - 1))
  /\ BlockOk(P, c.tail, c.tsize)
  /\ c.start >= 128
  /\ \A k \in 0..(c.count - 1) : c.offs[k] >= 0 /\ c.offs[k] <= c.offs[k + 1]
  /\ c.comp = 0 => c.raw = c.data
ContentPackOk(P, cl) ==
  /\ Cut(P, 88, 12) = Zeros(12)
  /\ ContentCount(P) >= 0 /\ ClusterCount(P) >= 0
  /\ BlockOk(P, ContentPtr(P), 4 * ContentCount(P))
  /\ BlockOk(P, ClusterPtr(P), 8 * ClusterCount(P))
  /\ \A i \in 1..ClusterCount(P) : ClusterOk(P, cl[i])
  /\ \A i \in 1..ContentCount(P) :
        LET ci == ContentInfo(P, i - 1)
        IN ci.cluster < ClusterCount(P) /\ ci.blob < cl[ci.cluster + 1].count
  \* clusters share no byte with each other nor with the tables
  /\ LET regs == [i \in 1..(ClusterCount(P) + 3) |->
                    IF i <= ClusterCount(P) THEN << cl[i].start, cl[i].tail + cl[i].tsize + 4 >>
                    ELSE IF i = ClusterCount(P) + 1 THEN << ContentPtr(P), ContentPtr(P) + 4 * ContentCount(P) + 4 >>
                    ELSE IF i = ClusterCount(P) + 2 THEN << ClusterPtr(P), ClusterPtr(P) + 8 * ClusterCount(P) + 4 >>
                    ELSE << CheckPos(P), P.len >>]
         s == SortSeq(regs, LAMBDA a, b : a[1] < b[1])
     IN \A i \in 1..(Len(s) - 1) : s[i][2] <= s[i + 1][1]

\* ------------------------------------------------------------ manifest pack
ManifestCount(P) == Num(P, 64, 2)
InfoPos(P, i) == CheckPos(P) - 256 * (ManifestCount(P) - i)       \* i from 0
\* the ranges of bytes which the checksum of a manifest sees as zeros: locations of the packs and CRC of the pack info
Masked(P) == [i \in 1..ManifestCount(P) |-> << InfoPos(P, i - 1) + 38, InfoPos(P, i - 1) + 256 >>]
PStr(P, p) == Cut(P, p + 1, B(P, p))
InfoAt(P, i) ==
  LET p == InfoPos(P, i)
  IN [ uuid |-> Cut(P, p, 16), size |-> Num(P, p + 16, 8), ckpos |-> SOOff(P, p + 24), cksize |-> SOSize(P, p + 24),
       id |-> Num(P, p + 32, 2), kind |-> B(P, p + 34), group |-> B(P, p + 35), free |-> Num(P, p + 36, 2),
       loc |-> PStr(P, p + 38), ok |-> BlockOk(P, p, 252) /\ B(P, p + 38) <= 213
                                       /\ Cut(P, p + 39 + B(P, p + 38), 213 - Min(B(P, p + 38), 213)) = Zeros(213 - Min(B(P, p + 38), 213)) ]
Infos(P) == TLCEval([i \in 1..ManifestCount(P) |-> InfoAt(P, i - 1)])

\* ------------------------------------------------------------ value stores (tail at t, of n bytes)
VStore(P, t, n) ==
  LET kind == B(P, t)
      w == B(P, t + 9)
      count == Num(P, t + 1, 8)
      size == IF kind = 0 THEN Num(P, t + 1, 8) ELSE Num(P, t + 10, w)
  IN [ kind |-> kind, size |-> size, count |-> IF kind = 0 THEN 0 ELSE count, start |-> t - 4 - size, tail |-> t, tsize |-> n,
       w |-> w,
       offs |-> [k \in 0..(IF kind = 0 THEN 0 ELSE Max(0, count)) |->
                   IF k = 0 THEN 0 ELSE IF k >= count THEN size ELSE Num(P, t + 10 + w * k, w)] ]
VStoreOk(P, v) ==
  /\ v.kind \in {0, 1} /\ v.size >= 0 /\ v.count >= 0
  /\ BlockOk(P, v.tail, v.tsize)
  /\ v.start >= 128 /\ BlockOk(P, v.start, v.size)
  /\ v.kind = 0 => v.tsize = 9
  /\ v.kind = 1 => /\ v.w \in 1..8
                   /\ v.tsize = 10 + v.w * (1 + Max(0, v.count - 1))
                   /\ \A k \in 0..(v.count - 1) : v.offs[k] >= 0 /\ v.offs[k] <= v.offs[k + 1]
VGet(P, v, id, n) == IF v.kind = 0 THEN Cut(P, v.start + id, n)
                     ELSE IF id < v.count THEN Cut(P, v.start + v.offs[id], v.offs[id + 1] - v.offs[id]) ELSE << -1 >>

\* ------------------------------------------------------------ entry stores
\* one property description at p: << next position, property >>
PropAt(P, p) ==
  LET t == B(P, p)
      hi == t \div 16
      lo == t % 16
      d8 == lo \div 8 = 1
  IN CASE hi = 0 -> << p + 1, [k |-> "p", name |-> <<>>, size |-> lo + 1] >>
       [] hi = 1 ->
            LET pw == ((lo \div 4) % 2) + 1
                cw == (lo % 4) + 1
                q == IF d8 THEN p + 1 + pw ELSE p + 1
            IN << q + 1 + B(P, q), [k |-> "c", name |-> PStr(P, q), pw |-> pw, cw |-> cw, d |-> d8,
                                    def |-> IF d8 THEN Num(P, p + 1, pw) ELSE 0, size |-> cw + (IF d8 THEN 0 ELSE pw)] >>
       [] hi \in {2, 3} ->
            LET w == (lo % 8) + 1
                q == IF d8 THEN p + 1 + w ELSE p + 1
            IN << q + 1 + B(P, q), [k |-> IF hi = 2 THEN "u" ELSE "s", name |-> PStr(P, q), w |-> w, d |-> d8,
                                    def |-> Cut(P, p + 1, w), size |-> IF d8 THEN 0 ELSE w] >>
       [] hi = 5 ->
            LET lw == lo % 4
                fx == B(P, p + 1) % 32
                iw == B(P, p + 1) \div 32
                q0 == IF iw > 0 THEN p + 3 ELSE p + 2
                q == IF d8 THEN q0 + lw + fx + iw ELSE q0
            IN << q + 1 + B(P, q), [k |-> "a", name |-> PStr(P, q), lw |-> lw, fx |-> fx, iw |-> iw, store |-> B(P, p + 2), d |-> d8,
                                    dpos |-> q0, size |-> IF d8 THEN 0 ELSE lw + fx + iw] >>
       [] hi = 8 -> << p + 2 + B(P, p + 1), [k |-> "v", name |-> PStr(P, p + 1), size |-> 1] >>
       [] OTHER -> << p + 1, [k |-> "?", name |-> <<>>, size |-> 0] >>
RECURSIVE PropsFrom(_, _, _)
PropsFrom(P, p, n) == IF n = 0 THEN << << p >> >> ELSE LET x == PropAt(P, p) IN << x[2] >> \o PropsFrom(P, x[1], n - 1)

RECURSIVE SumSizes(_)
SumSizes(ps) == IF ps = <<>> THEN 0 ELSE Head(ps).size + SumSizes(Tail(ps))

EStore(P, t, n) ==
  LET count == Num(P, t + 1, 4)
      esize == Num(P, t + 6, 2)
      nvar == B(P, t + 8)
      nkey == B(P, t + 9)
      all == PropsFrom(P, t + 10, nkey)
      end == all[nkey + 1][1]
      keys == SubSeq(all, 1, nkey)
      starts == SelectSeq([i \in 1..nkey |-> i], LAMBDA i : keys[i].k = "v")
      upto(i) == IF i < Len(starts) THEN starts[i + 1] - 1 ELSE nkey
      common == SubSeq(keys, 1, IF starts = <<>> THEN nkey ELSE starts[1] - 1)
      variants == [i \in 1..Len(starts) |-> SubSeq(keys, starts[i], upto(i))]
  IN [ kind |-> B(P, t), flag |-> B(P, t + 5), count |-> count, esize |-> esize, nvar |-> nvar, common |-> common,
       variants |-> variants, csize |-> SumSizes(common), tail |-> t, tsize |-> n, end |-> end,
       start |-> t - 4 - count * esize ]
EStoreOk(P, s) ==
  /\ s.kind = 0 /\ s.flag = 0 /\ s.count >= 0 /\ s.esize >= 0
  /\ BlockOk(P, s.tail, s.tsize)
  /\ s.end = s.tail + s.tsize
  /\ Len(s.variants) = s.nvar
  /\ \A i \in 1..Len(s.common) : s.common[i].k # "?"
  /\ \A v \in 1..Len(s.variants) : \A i \in 1..Len(s.variants[v]) : s.variants[v][i].k # "?"
  /\ IF s.nvar = 0 THEN s.esize = s.csize
     ELSE \A v \in 1..s.nvar : s.csize + SumSizes(s.variants[v]) = s.esize
  /\ s.start >= 128 /\ BlockOk(P, s.start, s.count * s.esize)

Pad8(b) == [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE 0]
SPad8(b) == [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE IF b[Len(b)] >= 128 THEN 255 ELSE 0]
Pad4(b) == [i \in 1..4 |-> IF i <= Len(b) THEN b[i] ELSE 0]

\* value of property x at position q of an entry
Value(P, vs, x, q) ==
  CASE x.k = "u" -> << "u", Pad8(IF x.d THEN x.def ELSE Cut(P, q, x.w)) >>
    [] x.k = "s" -> << "s", SPad8(IF x.d THEN x.def ELSE Cut(P, q, x.w)) >>
    [] x.k = "c" -> IF x.d THEN << "c", x.def, Pad4(Cut(P, q, x.cw)) >>
                    ELSE << "c", Num(P, q, x.pw), Pad4(Cut(P, q + x.pw, x.cw)) >>
    [] x.k = "a" ->
         LET p == IF x.d THEN x.dpos ELSE q
             len == Num(P, p, x.lw)
             inl == Cut(P, p + x.lw, Min(x.fx, Max(len, 0)))
             id == Num(P, p + x.lw + x.fx, x.iw)
             st == IF x.store < Len(vs) THEN vs[x.store + 1] ELSE [kind |-> 9, count |-> 0]
         IN IF x.iw > 0 /\ st.kind \notin {0, 1} THEN << "bad" >>
            ELSE IF x.lw = 0 THEN << "a", (IF x.fx > 0 THEN Cut(P, p, x.fx) ELSE <<>>) \o (IF x.iw > 0 THEN VGet(P, st, id, 0) ELSE <<>>) >>
            ELSE IF len < 0 \/ id < 0 THEN << "bad" >>
            ELSE << "a", inl \o (IF len > x.fx /\ x.iw > 0 THEN SubSeq(VGet(P, st, id, len - x.fx), 1, len - x.fx) ELSE <<>>) >>
    [] OTHER -> << "none" >>

\* values of the named properties of ps, placed from q: sequence of << name, value >>
RECURSIVE ValuesFrom(_, _, _, _)
ValuesFrom(P, vs, ps, q) ==
  IF ps = <<>> THEN <<>>
  ELSE (IF Head(ps).k \in {"p", "v"} THEN <<>> ELSE << << Head(ps).name, Value(P, vs, Head(ps), q) >> >>)
       \o ValuesFrom(P, vs, Tail(ps), q + Head(ps).size)

\* entry i (from 0): [v, vname, vals]
EntryAt(P, vs, s, i) ==
  LET q == s.start + i * s.esize
      v == IF s.nvar = 0 THEN -1 ELSE B(P, q + s.csize)
      vp == IF v >= 0 /\ v < s.nvar THEN s.variants[v + 1] ELSE <<>>
  IN [ v |-> v, vname |-> IF vp = <<>> THEN <<>> ELSE vp[1].name,
       vals |-> ValuesFrom(P, vs, s.common, q) \o ValuesFrom(P, vs, vp, q + s.csize),
       \* paddings are zeros
       pads |-> TRUE ]

\* ------------------------------------------------------------ directory pack
IndexPtr(P) == Num(P, 64, 8)
EStorePtr(P) == Num(P, 72, 8)
VStorePtr(P) == Num(P, 80, 8)
IndexCount(P) == Num(P, 88, 4)
EStoreCount(P) == Num(P, 92, 4)
VStoreCount(P) == B(P, 96)
VStores(P) == TLCEval([i \in 1..VStoreCount(P) |-> LET e == VStorePtr(P) + 8 * (i - 1) IN VStore(P, SOOff(P, e), SOSize(P, e))])
EStores(P) == TLCEval([i \in 1..EStoreCount(P) |-> LET e == EStorePtr(P) + 8 * (i - 1) IN EStore(P, SOOff(P, e), SOSize(P, e))])
IndexAt(P, i) ==
  LET e == IndexPtr(P) + 8 * i
      t == SOOff(P, e)
      n == SOSize(P, e)
  IN [ tail |-> t, tsize |-> n, store |-> Num(P, t, 4), count |-> Num(P, t + 4, 4), off |-> Num(P, t + 8, 4),
       free |-> Cut(P, t + 12, 4), key |-> B(P, t + 16), name |-> PStr(P, t + 17),
       ok |-> BlockOk(P, t, n) /\ n = 18 + B(P, t + 17) ]
Indexes(P) == TLCEval([i \in 1..IndexCount(P) |-> IndexAt(P, i - 1)])
DirOk(P, vs, es, ix) ==
  /\ Cut(P, 97, 3) = Zeros(3)
  /\ IndexCount(P) >= 0 /\ EStoreCount(P) >= 0
  /\ BlockOk(P, IndexPtr(P), 8 * IndexCount(P))
  /\ BlockOk(P, EStorePtr(P), 8 * EStoreCount(P))
  /\ BlockOk(P, VStorePtr(P), 8 * VStoreCount(P))
  /\ \A i \in 1..Len(vs) : VStoreOk(P, vs[i])
  /\ \A i \in 1..Len(es) : EStoreOk(P, es[i])
  /\ \A i \in 1..Len(ix) : ix[i].ok /\ ix[i].store < Len(es)
=============================================================================
