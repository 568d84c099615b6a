----------------------------- MODULE DirCodec ------------------------------
(***************************************************************************)
(* How a column of values is laid out (integers in the smallest width,     *)
(* constant columns as a default value, arrays split between an inline     *)
(* prefix and a value store), in a scaled down world where a "byte" has    *)
(* BASE values and integers have at most W bytes.  Checked for every       *)
(* column of at most ROWS values: what is read is what was written, and    *)
(* the order used by the writer to sort (inline prefix, identifier in the  *)
(* value store, length) is the order of the reader (the whole string).     *)
(***************************************************************************)
EXTENDS Bytes, TLC
CONSTANTS BASE, W, ROWS, STRLEN, FIXMAX

VARIABLES kind, column, fixed, store
vars == << kind, column, fixed, store >>

MaxU == BASE ^ W - 1
HalfW == (BASE ^ W) \div 2
Strings == UNION { [1..n -> 0..1] : n \in 0..STRLEN }
Columns(S) == UNION { [1..n -> S] : n \in 1..ROWS }

Init ==
  \/ kind = "u" /\ column \in Columns(0..MaxU) /\ fixed = 0 /\ store = "-"
  \/ kind = "s" /\ column \in Columns((-HalfW)..(HalfW - 1)) /\ fixed = 0 /\ store = "-"
  \/ kind = "a" /\ column \in Columns(Strings) /\ fixed \in 0..FIXMAX /\ store \in {"plain", "indexed"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Set(c) == { c[i] : i \in 1..Len(c) }
Enc(n, w) == [i \in 1..w |-> (n \div (BASE ^ (i - 1))) % BASE]
RECURSIVE Dec(_)
Dec(b) == IF b = <<>> THEN 0 ELSE b[1] + BASE * Dec(Tail(b))

\* --- unsigned: smallest width holding the maximum (at least one byte)
UWidth(c) == CHOOSE w \in 1..W : (\A v \in Set(c) : v < BASE ^ w) /\ \A x \in 1..(w - 1) : \E v \in Set(c) : v >= BASE ^ x
\* --- signed: smallest width whose two's complement range holds all values
Fits(v, w) == v >= -(BASE ^ w \div 2) /\ v < BASE ^ w \div 2
SWidth(c) == CHOOSE w \in 1..W : (\A v \in Set(c) : Fits(v, w)) /\ \A x \in 1..(w - 1) : \E v \in Set(c) : ~Fits(v, x)
SEnc(v, w) == Enc(IF v < 0 THEN v + BASE ^ w ELSE v, w)
SDec(b) == LET n == Dec(b) IN IF n >= BASE ^ Len(b) \div 2 THEN n - BASE ^ Len(b) ELSE n
Constant(c) == Cardinality(Set(c)) = 1

IntRoundTrip ==
  /\ kind = "u" => LET w == UWidth(column) IN \A v \in Set(column) : Dec(Enc(v, w)) = v
  /\ kind = "s" => LET w == SWidth(column) IN \A v \in Set(column) : SDec(SEnc(v, w)) = v

\* --- arrays
Pre(v) == SubSeq(v, 1, Min(fixed, Len(v)))
Tl(v) == SubSeq(v, Min(fixed, Len(v)) + 1, Len(v))
Tails(c) == { Tl(v) : v \in Set(c) }
RECURSIVE SortedBy(_)
SortedBy(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : LexCmp(x, y) <= 0 IN << m >> \o SortedBy(S \ {m})
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Data(c) == Concat(SortedBy(Tails(c)))
Rank(c, t) == (CHOOSE i \in 1..Cardinality(Tails(c)) : SortedBy(Tails(c))[i] = t) - 1
OffOf(c, t) == Len(Concat(SubSeq(SortedBy(Tails(c)), 1, Rank(c, t))))
Id(c, t) == IF store = "plain" THEN OffOf(c, t) ELSE Rank(c, t)

\* what is written for v: length (when not indirect), the prefix padded to `fixed`, the identifier
WriteArr(c, v) == << Len(v), Pre(v) \o [i \in 1..(fixed - Len(Pre(v))) |-> 0], Id(c, Tl(v)) >>
Fetch(c, id, n) == IF store = "plain" THEN SubSeq(Data(c), id + 1, id + n) ELSE SortedBy(Tails(c))[id + 1]
ReadArr(c, w) ==
  LET size == w[1]
      pre == SubSeq(w[2], 1, Min(fixed, size))
      tail == IF size > fixed THEN Fetch(c, w[3], size - fixed) ELSE <<>>
  IN pre \o tail
ArrayRoundTrip == kind = "a" => \A v \in Set(column) : ReadArr(column, WriteArr(column, v)) = v

WriterCmp(c, a, b) ==
  LET p == LexCmp(Pre(a), Pre(b))
      i == Id(c, Tl(a)) - Id(c, Tl(b))
  IN IF p # 0 THEN p ELSE IF i # 0 THEN (IF i < 0 THEN -1 ELSE 1)
     ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
SameOrder == kind = "a" => \A a \in Set(column), b \in Set(column) : WriterCmp(column, a, b) = LexCmp(a, b)
=============================================================================
